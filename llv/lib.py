"""Contracts assumed for compiler intrinsics, the C++ runtime and library functions, and the harness intrinsics."""
import re, struct
from fractions import Fraction
import z3
import ir, poly as PL
from poly import Poly, atom, interval
from ir import IntTy, PTR, FLOAT, DOUBLE, size_of, bits_of
from engine import *
from execu import Exec, HANDLED, INLINE, Stop, Redo
from loops import LoopMixin

TABLE = []      # (regex on demangled or mangled name, handler, label of the assumption or None)
def model(rx, label=None):
    def d(f): TABLE.append((re.compile(rx), f, label)); return f
    return d

class SumSpec:
    """the prefix sum of a term; the term may have several cases, chosen by conditions on the index"""
    def __init__(self, eng, name, K, g, cases=None):
        self.e, self.name, self.K, self.g, self.cases = eng, name, K, g, cases
        self.f = z3.Function(f"S_{name}_{fresh_id()}", z3.IntSort(), z3.RealSort())
    def term(self, st, k):
        if isinstance(k, Poly): kz = PL.to_int(k)
        else: kz = z3.IntVal(int(k))
        if self.cases:
            out = []
            for cs, g in self.cases:
                c = z3.substitute(z3.And(cs) if len(cs) != 1 else cs[0], (self.K, kz)); self.e._keep(c)
                if self.e.prove(st, c): return self.e.subst_poly(st, g, [(self.K, kz)], None)
                if not self.e.prove(st, Not(c)): out.append((c, self.e.subst_poly(st, g, [(self.K, kz)], None)))
            if not out: raise Unsupported("sum term without a case")
            r = PL.to_real(out[-1][1])
            for c, g in out[:-1]: r = z3.If(c, PL.to_real(g), r)
            self.e._keep(r); return atom(r)
        return self.e.subst_poly(st, self.g, [(self.K, kz)], None)
    def at(self, st, n):
        if not isinstance(n, Poly):
            n = int(n)
            if n <= 0: return 0
            if n <= 512:
                r = 0
                for k in range(n): r = PL.add(r, self.term(st, k))
                return r
            return atom(self.f(z3.IntVal(n)))
        c = int(n.m.get((), 0))
        if 0 < c <= 512:
            b = PL.sub(n, c); lo, _ = interval(b)
            if (lo is not None and lo >= 0) or self.e.prove(st, PL.to_int(b) >= 0):
                r = self.at(st, b)
                for k in range(c): r = PL.add(r, self.term(st, PL.add(b, k)))
                return r
        t = self.f(PL.to_int(n)); self.e._keep(t)
        key = ("S0", t.get_id())
        if key not in st.ranges:
            st.ranges.add(key); st.pc.append(z3.Implies(PL.to_int(n) == 0, t == 0))
            st.ghost["sumpts"] = st.ghost.get("sumpts", ()) + ((self, n, t),)
        return atom(t)
    @staticmethod
    def relate(e, st):
        """two points of one sum at a provably constant distance: unfold the terms between them"""
        pts = st.ghost.get("sumpts", ())
        if len(pts) > 12 or not pts: return
        s = z3.Solver(); s.set("timeout", 2000)
        for c in st.pc:
            if not has_quant(c) and not heavy_real(c): s.add(c)
        if s.check() != z3.sat: return
        mdl = s.model()
        val = lambda z: mdl.eval(z, model_completion=True).as_long()
        for S, q, t in pts:
            best = None
            ps = [(S2, p, t2) for S2, p, t2 in pts if S2 is S and t2.get_id() != t.get_id()] + [(S, 0, None)]
            for S2, p, t2 in ps:
                d = PL.sub(q, p)
                if not isinstance(d, Poly): continue
                dz = PL.to_int(d); c = val(dz)
                if 0 <= c <= 128 and (best is None or c < best[0]) and ("SR", t.get_id(), t2.get_id() if t2 is not None else 0) not in st.ranges and e.prove(st, dz == c): best = (c, p, t2)
            if best is None: continue
            c, p, t2 = best
            st.ranges.add(("SR", t.get_id(), t2.get_id() if t2 is not None else 0))
            r = atom(t2) if t2 is not None else 0
            for k in range(c): r = PL.add(r, S.term(st, PL.add(p, k)))
            st.pc.append(t == PL.to_real(r))

class Verifier(LoopMixin, Exec):
    def find_handler(self, name):
        d = self.dem.get(name, name)
        if name.startswith("__vc_"):
            f = globals().get("h" + name)
            if f is None: raise Unsupported("intrinsic " + name)
            return ("lib", f, None)
        if name.startswith("llvm."):
            f = llvm_handler(name)
            if f is None: raise Unsupported("intrinsic " + name)
            return ("lib", f, None)
        for rx, f, label in self.contracts:
            if rx.search(d) or rx.search(name): return ("lib", f, label)
        for rx, f, label in TABLE:
            if rx.search(d) or rx.search(name): return ("lib", f, label)
        if name in self.m.funcs: return ("body", None, None)
        return ("none", None, None)
    def cstr_at(self, st, p):
        """constant C string"""
        p = self.toptr(st, p)
        o = st.mem[p.obj]
        if o.dflt[0] == "init" and o.dflt[2][0] == "str":
            b = o.dflt[2][1][int(p.off):]; return b.split(b"\0")[0].decode("latin1")
        out = []
        for k in range(4096):
            b = self.load(st, IntTy(8), Ptr(p.obj, PL.add(p.off, k)))
            if not isinstance(b, int): raise Unsupported("symbolic C string")
            if b == 0: break
            out.append(b)
        return bytes(out).decode("latin1")
    def eval_fn(self, st, fnptr, args, name, allow_fork=True, checks=False):
        """run a (pure) function value symbolically on a copy of the state: list of (condition, result, end state)"""
        p = self.toptr(st, fnptr)
        if not (isinstance(p.obj, tuple) and p.obj[0] == "fn"): raise Unsupported("function value")
        f = ir.ensure(self.m, self.m.funcs[p.obj[1]]); f.dname = self.dem.get(f.name, f.name)
        s = st.clone(); n0 = len(s.pc); depth = len(s.frames)
        fr = Frame(f); fr.call = None
        for (t, nm, bv), v in zip(f.params, args): fr.env[nm] = v
        for q in s.frames: q.loops = {h: L[:3] + (True,) + L[4:] if L[0] == "probe" else L for h, L in q.loops.items()}
        s.frames.append(fr)
        self.dry += 1; mc = self.o["mem_check"]
        try: ends = self.explore([s], ("ret", depth))
        finally: self.dry -= 1
        out = []
        for k, e in ends:
            if k == "ret": out.append((e.pc[n0:], e.ret, e))
        return out, n0

# ------------------------------------------------------------------ harness intrinsics
def add_input(st, kind, name, term, **kw): st.inputs.append((kind, name, term, kw))
def h__vc_int(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0]); w = a[1]
    v = e.new_int(st, w, "in_" + nm)
    add_input(st, "int", nm, e.zi(v, w), w=w)
    if w < 64:
        r = v if e.mode == "int" else z3.ZeroExt(64 - w, v) if z3.is_bv(v) else z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        if w == 1: return e.boolint(v, 64)
        return r
    return v
def h__vc_f32(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0]); v = e.fresh_fl(st, "float", "in_" + nm)
    add_input(st, "f32", nm, PL.to_real(v) if e.fl == "real" else (e.zi(v.b, 32) if e.fl == "bits" else v)); return v
def h__vc_f64(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0]); v = e.fresh_fl(st, "double", "in_" + nm)
    add_input(st, "f64", nm, PL.to_real(v) if e.fl == "real" else (e.zi(v.b, 64) if e.fl == "bits" else v)); return v
def h__vc_buf(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0]); n, es, kind = a[1], a[2], a[3]
    es = int(es)
    nn = e.U(st, n, 64)
    if e.mode == "bv" and not isinstance(nn, int): size = PL.scale(e.bv_poly(nn), es)
    else: size = PL.scale(nn, es)
    sn = f"in_{nm}!{fresh_id()}"
    o = e.new_obj(st, size, "buf:" + nm, "sym", ("sym", sn), stride=None if not isinstance(nn, Poly) and isinstance(nn, int) and nn * es <= 4096 and kind != 9 else es, align=64)
    o.tag["elem"] = es
    if o.stride is None and not isinstance(nn, int): o.stride = es
    add_input(st, "buf", nm, None, n=e.zi(nn, 64), es=es, sym=sn, obj=o.id, cells=o.stride is None)
    return Ptr(o.id, 0)
def h__vc_assume(e, st, ins, name, a): 
    c = a[0] if not isinstance(a[0], int) else bool(a[0])
    u = e.undecided(st)
    e.assume(st, c)
    if not isinstance(c, bool) and not has_quant(c) and not e.feasible(st): raise PathEnd()
def h__vc_check(e, st, ins, name, a):
    nm = e.cstr_at(st, a[1])
    c = a[0] if not isinstance(a[0], int) else bool(a[0])
    if isinstance(c, Undef): c = z3.Bool(f"undef!{fresh_id()}")
    if not e.dry: e.named_checks.setdefault(nm, 0); e.named_checks[nm] += 1
    if st.ghost.get("sumpts") and not isinstance(c, bool): SumSpec.relate(e, st)
    try: e.oblige(st, c, nm, "check")
    except PathEnd:
        raise
def h__vc_cover(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0])
    if e.dry: return
    if e.covers.get(nm) is True: return
    s = z3.Solver(); s.set("timeout", 8000)
    for c in st.pc: s.add(c)
    r = s.check()
    e.covers[nm] = True if r == z3.sat else ("unknown" if r == z3.unknown and e.covers.get(nm) != True else e.covers.get(nm, False))
def h__vc_stop(e, st, ins, name, a): raise PathEnd()
def h__vc_fork(e, st, ins, name, a):
    """case split on a boolean so each case is one path"""
    c = simp_bool(a[0] if not isinstance(a[0], int) else bool(a[0]))
    if isinstance(c, bool): return c
    k = ("B", c.get_id())
    if k in st.known: return st.known[k]
    def mk(v):
        def g(s2): s2.known[k] = v; e._keep(c)
        return g
    raise Fork([(c, mk(True)), (Not(c), mk(False))])
def bound_var(e, nm="k"):
    n = f"{nm}!{fresh_id()}"
    if e.mode == "int":
        t = z3.Int(n); return t, atom(t, (0, (1 << 64) - 1))
    t = z3.BitVec(n, 64); return t, t
def h__vc_all(e, st, ins, name, a):
    lo, hi, fn, ctx = a
    K, kv = bound_var(e)
    if e.mode == "int":
        lo, hi = e.U(st, lo, 64), e.U(st, hi, 64)
        rng = z3.And(PL.to_int(lo) <= K, K < PL.to_int(hi))
    else: rng = z3.And(z3.ULE(e.zi(lo), K), z3.ULT(K, e.zi(hi)))
    s = st.clone(); s.pc.append(rng)
    if e.mode == "int": s.pc.append(K < (1 << 64))
    n0 = len(s.pc)
    ends, _ = e.eval_fn(s, fn, [ctx, kv], "all")
    parts = []
    for pc, r, en in ends:
        r = r if not isinstance(r, int) else bool(r)
        facts = en.pc[n0:]
        parts.append(zb(Implies(And(*[f for f in facts]), r)))
    body = z3.And(parts) if len(parts) != 1 else parts[0]
    if not parts: return True
    body = z3.simplify(z3.Implies(rng, e.renorm(body))) if False else z3.Implies(rng, e.renorm(body))
    return z3.ForAll([K], body)
def h__vc_exists(e, st, ins, name, a):
    lo, hi, fn, ctx = a
    K, kv = bound_var(e)
    if e.mode == "int":
        lo, hi = e.U(st, lo, 64), e.U(st, hi, 64)
        rng = z3.And(PL.to_int(lo) <= K, K < PL.to_int(hi))
    else: rng = z3.And(z3.ULE(e.zi(lo), K), z3.ULT(K, e.zi(hi)))
    s = st.clone(); s.pc.append(rng); n0 = len(s.pc)
    ends, _ = e.eval_fn(s, fn, [ctx, kv], "ex")
    parts = []
    for pc, r, en in ends:
        r = r if not isinstance(r, int) else bool(r)
        parts.append(zb(And(*(list(en.pc[n0:]) + [r]))))
    if not parts: return False
    body = z3.Or(parts) if len(parts) != 1 else parts[0]
    return z3.Exists([K], z3.And(rng, e.renorm(body)))
def h__vc_all2(e, st, ins, name, a):
    """forall lo <= i < j < hi"""
    lo, hi, fn, ctx = a
    K, kv = bound_var(e, "i"); J, jv = bound_var(e, "j")
    if e.mode == "int":
        lo, hi = e.U(st, lo, 64), e.U(st, hi, 64)
        rng = z3.And(PL.to_int(lo) <= K, K < J, J < PL.to_int(hi))
    else: rng = z3.And(z3.ULE(e.zi(lo), K), z3.ULT(K, J), z3.ULT(J, e.zi(hi)))
    s = st.clone(); s.pc.append(rng)
    if e.mode == "int": s.pc.append(J < (1 << 64))
    n0 = len(s.pc)
    ends, _ = e.eval_fn(s, fn, [ctx, kv, jv], "all2")
    parts = []
    for pc, r, en in ends:
        r = r if not isinstance(r, int) else bool(r)
        parts.append(zb(Implies(And(*en.pc[n0:]), r)))
    body = z3.And(parts) if len(parts) != 1 else parts[0]
    if not parts: return True
    return z3.ForAll([K, J], z3.Implies(rng, e.renorm(body)))
def h__vc_sum(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0]); n, fn, ctx = a[1], a[2], a[3]
    K = z3.Int(f"sk!{fresh_id()}"); kv = atom(K, (0, (1 << 62)))
    n = e.U(st, n, 64)
    s = st.clone(); s.pc.append(z3.And(K >= 0, K < PL.to_int(n)))
    ends, _ = e.eval_fn(s, fn, [ctx, kv], "sum")
    n0 = len(s.pc); cases = None
    if len(ends) != 1: cases = [([zb(c) for c in en.pc[n0:]] or [z3.BoolVal(True)], r) for pc, r, en in ends]
    # one spec per name
    sp = st.ghost.get("sums", ())
    for x in sp:
        if x.name == nm:
            S = x; break
    else:
        S = SumSpec(e, nm, K, ends[0][1], cases); st.ghost["sums"] = sp + (S,)
    return S.at(st, n)
def h__vc_uf(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0]); xs = a[1:]
    so = z3.IntSort() if e.mode == "int" else z3.BitVecSort(64)
    f = z3.Function("uf_" + nm, *([so] * (len(xs) + 1)))
    t = f(*[e.zi(e.U(st, e.unpd(st, x, 64), 64), 64) for x in xs]); e._keep(t)
    if e.mode == "int":
        v = atom(t, (0, (1 << 64) - 1)); e.range_fact_once(st, v, 64); return v
    return t
def h__vc_uff(e, st, ins, name, a):
    nm = e.cstr_at(st, a[0]); xs = a[1:]
    so = z3.IntSort() if e.mode == "int" else z3.BitVecSort(64)
    rs = z3.RealSort() if e.fl == "real" else z3.Float32() if e.fl == "fp" else None
    if rs is None: raise Unsupported("float function in bits mode")
    f = z3.Function("uff_" + nm, *([so] * len(xs) + [rs]))
    t = f(*[e.zi(e.U(st, e.unpd(st, x, 64), 64), 64) for x in xs]); e._keep(t)
    return atom(t) if e.fl == "real" else t
def h__vc_loop(e, st, ins, name, a):
    st.ghost["loopinv"] = st.ghost.get("loopinv", ()) + ((e.cstr_at(st, a[0]), a[1], a[2]),)
def h__vc_pred(e, st, ins, name, a):
    st.ghost["preds"] = st.ghost.get("preds", ()) + ((e.cstr_at(st, a[0]), a[1], a[2]),)
def h__vc_track(e, st, ins, name, a):
    st.ghost["tracks"] = st.ghost.get("tracks", ()) + ((e.cstr_at(st, a[0]), a[1], a[2]),)
def h__vc_outer(e, st, ins, name, a): return getattr(e, "cur_outer", 0)
def h__vc_opaque(e, st, ins, name, a): return a[0]
def h__vc_hint_bound(e, st, ins, name, a): return None

# ------------------------------------------------------------------ LLVM intrinsics
def _mm(e, st, w, a, b, k):
    sg = k[0] == "s"
    if e.mode == "int":
        a, b = (e.S if sg else e.U)(st, a, w), (e.S if sg else e.U)(st, b, w)
        c = e.le(a, b)
        r = e.ite(st, c, a, b, IntTy(w)) if not sg else None
        lo, hi = (a, b) if k.endswith("min") else (b, a)
        if isinstance(c, bool): return e.wrapc(lo if c else hi, w)
        t = z3.If(c, PL.to_int(lo), PL.to_int(hi)); e._keep(t)
        la, ha = interval(a); lb, hb = interval(b)
        return atom(t, (min(la, lb), max(ha, hb)) if None not in (la, lb) else None)
    c = e.icmp(st, "sle" if sg else "ule", IntTy(w), a, b)
    return e.ite(st, c, a, b, IntTy(w)) if k.endswith("min") else e.ite(st, c, b, a, IntTy(w))
def vecmap(f):
    def g(e, st, ins, name, a):
        if isinstance(a[0], list):
            return [f(e, st, ins, name, [x[i] if isinstance(x, list) else x for x in a]) for i in range(len(a[0]))]
        return f(e, st, ins, name, a)
    return g
def uf_real(nm, ar=1, post=None):
    def g(e, st, ins, name, a):
        if e.fl == "real":
            f = z3.Function(nm, *([z3.RealSort()] * (ar + 1)))
            t = f(*[PL.to_real(x) for x in a[:ar]]); e._keep(t)
            if post: 
                for c in post(t, *[PL.to_real(x) for x in a[:ar]]): st.pc.append(c)
            return atom(t)
        if e.fl == "fp":
            if nm == "sqrt": return z3.fpSqrt(z3.RNE(), a[0])
            md = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": z3.RNE(), "nearbyint": z3.RNE(), "roundeven": z3.RNE()}
            if nm in md: return z3.fpRoundToIntegral(md[nm], a[0])
            s = a[0].sort(); f = z3.Function(f"{nm}_{s}", *([s] * (ar + 1))); return f(*a[:ar])
        raise Unsupported(nm)
    return vecmap(g)
def ipart(kind):
    def g(e, st, ins, name, a):
        if e.fl == "real":
            x = a[0]
            if not isinstance(x, Poly):
                import math
                fx = math.floor(x)
                return Fraction({"floor": fx, "ceil": math.ceil(x), "round": (math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))), "trunc": int(x), "rint": round(x)}[kind])
            z = PL.to_real(x)
            if kind == "floor": t = z3.ToReal(z3.ToInt(z))
            elif kind == "ceil": t = -z3.ToReal(z3.ToInt(-z))
            elif kind == "trunc": t = z3.If(z >= 0, z3.ToReal(z3.ToInt(z)), -z3.ToReal(z3.ToInt(-z)))
            elif kind == "round": t = z3.If(z >= 0, z3.ToReal(z3.ToInt(z + z3.RealVal("1/2"))), -z3.ToReal(z3.ToInt(-z + z3.RealVal("1/2"))))
            else:
                f = z3.Function("rint", z3.RealSort(), z3.IntSort()); q = f(z); st.pc.append(z3.And(z3.ToReal(q) <= z + z3.RealVal("1/2"), z3.ToReal(q) >= z - z3.RealVal("1/2"))); t = z3.ToReal(q)
            e._keep(t); return atom(t)
        if e.fl == "fp":
            md = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": z3.RNE()}
            return z3.fpRoundToIntegral(md[kind], a[0])
        raise Unsupported(kind)
    return vecmap(g)
def _fma(e, st, ins, name, a):
    k = "double" if "f64" in name else "float"
    if e.fl == "fp": return z3.fpFMA(z3.RNE(), a[0], a[1], a[2]) if "fmuladd" not in name else z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2])
    return e.fop(st, "fadd", k, e.fop(st, "fmul", k, a[0], a[1]), a[2])
def _fabs(e, st, ins, name, a):
    if e.fl == "real":
        if not isinstance(a[0], Poly): return abs(a[0])
        z = PL.to_real(a[0]); t = z3.If(z >= 0, z, -z); e._keep(t); return atom(t)
    if e.fl == "fp": return z3.fpAbs(a[0])
    raise Unsupported("fabs")
def _fminmax(mx):
    def g(e, st, ins, name, a):
        if e.fl == "real":
            d = e.fcmp(st, "olt", FLOAT, a[0], a[1])
            x, y = (a[1], a[0]) if mx else (a[0], a[1])
            return e.ite(st, d, x, y, FLOAT)
        return (z3.fpMax if mx else z3.fpMin)(a[0], a[1])
    return vecmap(g)
def _ctpop(e, st, ins, name, a):
    w = ins.ty.n; x = a[0]
    if isinstance(x, int): return bin(x).count("1")
    if e.mode == "bv":
        r = z3.BitVecVal(0, w)
        for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        return r
    f = z3.Function(f"ctpop{w}", z3.IntSort(), z3.IntSort()); t = f(e.zi(e.U(st, x, w))); e._keep(t)
    st.pc.append(z3.And(t >= 0, t <= w)); return atom(t, (0, w))
def _ctz(e, st, ins, name, a):
    w = ins.ty.n; x = a[0]; lead = "ctlz" in name
    if isinstance(x, int):
        if x == 0: return w
        return (w - x.bit_length()) if lead else (x & -x).bit_length() - 1
    if e.mode == "bv":
        r = z3.BitVecVal(w, w)
        for i in (range(w) if lead else range(w - 1, -1, -1)):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if lead else i, w), r)
        return r
    if lead:
        # w - bit length, as a chain over the powers of two
        z = e.zi(e.U(st, x, w)); t = z3.IntVal(w)
        for i in range(w): t = z3.If(z >= (1 << i), z3.IntVal(w - 1 - i), t)
        e._keep(t); return atom(t, (0, w))
    f = z3.Function(f"cttz{w}", z3.IntSort(), z3.IntSort()); t = f(e.zi(e.U(st, x, w))); e._keep(t)
    st.pc.append(z3.And(t >= 0, t <= w)); return atom(t, (0, w))
def _ovf(e, st, ins, name, a):
    m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", name); sg, op, w = m.group(1), m.group(2), int(m.group(3))
    if e.mode == "int":
        x, y = ((e.S if sg == "s" else e.U)(st, v, w) for v in a[:2])
        r = {"add": PL.add, "sub": PL.sub, "mul": PL.mul}[op](x, y)
        lo, hi = (0, (1 << w) - 1) if sg == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if not isinstance(r, Poly): return [e.wrapc(int(r), w), not (lo <= r <= hi)]
        z = PL.to_int(r)
        return [r, z3.Or(z < lo, z > hi)]
    X, Y = e.zi(a[0], w), e.zi(a[1], w); ex = (lambda v: z3.SignExt(w, v)) if sg == "s" else (lambda v: z3.ZeroExt(w, v))
    R = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[op](ex(X), ex(Y))
    r = z3.simplify(z3.Extract(w - 1, 0, R))
    return [r.as_long() if z3.is_bv_value(r) else r, simp_bool(z3.simplify(ex(z3.Extract(w - 1, 0, R)) != R))]
def _sat(e, st, ins, name, a):
    m = re.match(r"llvm\.([us])(add|sub)\.sat\.i(\d+)", name); w = int(m.group(3))
    if m.group(1) != "u": raise Unsupported(name)
    if m.group(2) == "sub":
        c = e.icmp(st, "ult", IntTy(w), a[0], a[1])
        return e.ite(st, c, 0, e.binop(st, "sub", w, a[0], a[1], ()), IntTy(w))
    raise Unsupported(name)
def _fsh(e, st, ins, name, a):
    w = ins.ty.n; s = e.conc(st, a[2], w, 64, "shift") % w
    left = "fshl" in name
    if not left: s = (w - s) % w if s else 0
    if s == 0: return a[0] if left else a[1]
    x = e.binop(st, "shl", w, e.U(st, a[0], w), s, ()); y = e.binop(st, "lshr", w, a[1], w - s, ())
    return e.binop(st, "or", w, e.U(st, x, w), y, ())
def _bswap(e, st, ins, name, a):
    w = ins.ty.n
    if isinstance(a[0], int): return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
    bs = [e.byte_val(st, p) for p in e.bytes_of(st, a[0], IntTy(w))]
    if e.mode == "int":
        r = 0
        for i, b in enumerate(reversed(bs)): r = PL.add(r, PL.scale(b, 1 << (8 * i)))
        return r
    return z3.simplify(z3.Concat(*[z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in bs]))
def _reduce(e, st, ins, name, a):
    m = re.match(r"llvm\.vector\.reduce\.(\w+)\.v\d+(\w+)", name); op = m.group(1)
    if op == "fadd" or op == "fmul":
        k = ins.ty.k; r = a[0]
        for x in a[1]: r = e.fop(st, op, k, r, x)
        return r
    xs = a[0]; r = xs[0]
    for x in xs[1:]:
        if op in ("add", "mul", "and", "or", "xor"): r = e.binop(st, op, ins.ty.n, r, x, ())
        elif op in ("smax", "smin", "umax", "umin"): r = _mm(e, st, ins.ty.n, r, x, op)
        elif op in ("fmax", "fmin"): r = _fminmax(op == "fmax")(e, st, ins, name, [r, x])
        else: raise Unsupported(name)
    return r
def _mload(e, st, ins, name, a):
    p = e.toptr(st, a[0]); mask, pas = a[2], a[3]; es = size_of(ins.ty.el); out = []
    for i in range(ins.ty.n):
        mi = mask[i]
        if isinstance(mi, Undef): raise Unsupported("mask")
        if isinstance(mi, int): mi = bool(mi)
        mi = simp_bool(mi)
        d = pas[i] if isinstance(pas, list) else e.zero_of(ins.ty.el)
        if mi is False: out.append(d); continue
        if mi is True: out.append(e.load(st, ins.ty.el, Ptr(p.obj, PL.add(p.off, i * es)))); continue
        if e.prove(st, Not(mi)): out.append(d); continue
        if e.prove(st, mi): out.append(e.load(st, ins.ty.el, Ptr(p.obj, PL.add(p.off, i * es)))); continue
        s2 = st.clone(); s2.pc.append(mi)
        n = len(e.obls); v = e.load(s2, ins.ty.el, Ptr(p.obj, PL.add(p.off, i * es)))
        out.append(e.ite(st, mi, v, d, ins.ty.el))
    return out
def _mstore(e, st, ins, name, a):
    v, p, mask = a[0], e.toptr(st, a[1]), a[3]
    ty = ins.a[1][0][0]; es = size_of(ty.el)
    for i in range(ty.n):
        mi = mask[i]
        if isinstance(mi, int): mi = bool(mi)
        mi = simp_bool(mi)
        if mi is False or (mi is not True and e.prove(st, Not(mi))): continue
        q = Ptr(p.obj, PL.add(p.off, i * es))
        if mi is True or e.prove(st, mi): e.store(st, ty.el, v[i], q); continue
        def mk(b):
            return None
        raise Fork([(mi, None), (Not(mi), None)])
def llvm_handler(n):
    if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.donothing", "llvm.prefetch", "llvm.va_", "llvm.experimental.noalias", "llvm.stackrestore", "llvm.invariant", "llvm.x86.sse.sfence", "llvm.x86.sse2.mfence", "llvm.x86.sse2.pause", "llvm.x86.avx.vzero")):
        return lambda e, st, ins, name, a: None
    if n.startswith(("llvm.memcpy", "llvm.memmove")): return lambda e, st, ins, name, a: e.memcpy(st, a[0], a[1], a[2])
    if n.startswith("llvm.memset"): return lambda e, st, ins, name, a: e.memset(st, a[0], a[1], a[2])
    m = re.match(r"llvm\.([us](?:max|min))\.", n)
    if m:
        k = m.group(1)
        def f(e, st, ins, name, a):
            ty = ins.ty.el if ins.ty.k == "vec" else ins.ty
            return [_mm(e, st, ty.n, x, y, k) for x, y in zip(*a)] if ins.ty.k == "vec" else _mm(e, st, ty.n, a[0], a[1], k)
        return f
    if n.startswith("llvm.abs"):
        def f(e, st, ins, name, a):
            ty = ins.ty.el if ins.ty.k == "vec" else ins.ty
            def one(x):
                c = e.icmp(st, "slt", ty, x, 0); return e.ite(st, c, e.binop(st, "sub", ty.n, 0, x, ()), x, ty)
            return [one(x) for x in a[0]] if ins.ty.k == "vec" else one(a[0])
        return f
    if n.startswith("llvm.ctpop"): return _ctpop
    if n.startswith(("llvm.ctlz", "llvm.cttz")): return _ctz
    if "with.overflow" in n: return _ovf
    if ".sat." in n: return _sat
    if n.startswith("llvm.fsh"): return _fsh
    if n.startswith("llvm.bswap"): return _bswap
    if n.startswith("llvm.expect"): return lambda e, st, ins, name, a: a[0]
    if n.startswith(("llvm.fma", "llvm.fmuladd")): return vecmap(_fma)
    if n.startswith("llvm.fabs"): return vecmap(_fabs)
    if n.startswith("llvm.sqrt"): return uf_real("sqrt", 1, lambda t, x: [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))])
    for k in ("floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven"):
        if n.startswith(f"llvm.{k}."): return ipart({"nearbyint": "rint", "roundeven": "rint"}.get(k, k))
    if n.startswith(("llvm.minnum", "llvm.minimum")): return _fminmax(False)
    if n.startswith(("llvm.maxnum", "llvm.maximum")): return _fminmax(True)
    for k in ("exp", "log", "log2", "log10", "sin", "cos", "exp2"):
        if n.startswith(f"llvm.{k}."): return uf_real(k)
    if n.startswith("llvm.pow"): return uf_real("pow", 2)
    if n.startswith("llvm.vector.reduce"): return _reduce
    if n.startswith("llvm.masked.load"): return _mload
    if n.startswith("llvm.masked.store"): return _mstore
    if n.startswith("llvm.is.constant"): return lambda e, st, ins, name, a: False
    if n.startswith("llvm.objectsize"): return lambda e, st, ins, name, a: (1 << 64) - 1
    if n.startswith("llvm.stacksave"): return lambda e, st, ins, name, a: NULL
    if n.startswith("llvm.eh.typeid.for"):
        def f(e, st, ins, name, a):
            v = ins.a[1][0][1]
            return e.tid(v[1]) if v[0] == "glob" else 9999
        return f
    if n.startswith(("llvm.trap", "llvm.debugtrap", "llvm.ubsantrap")):
        def f(e, st, ins, name, a): e.oblige(st, False, "no-abort:trap", "mem"); raise PathEnd()
        return f
    if n.startswith("llvm.is.fpclass"):
        def f(e, st, ins, name, a):
            if e.fl == "real": 
                e.assumed["NaN does not occur (real-number abstraction of float data)"] = 1
                m = a[1]
                return False if m in (3, 0x3, 0x204, 516) else (True if m == 0x1f8 else False)
            if e.fl == "fp":
                m = a[1]; x = a[0]; c = []
                if m & 3: c.append(z3.fpIsNaN(x))
                if m & 4: c.append(z3.And(z3.fpIsInf(x), z3.fpIsNegative(x)))
                if m & 0x200: c.append(z3.And(z3.fpIsInf(x), z3.fpIsPositive(x)))
                if m & 0x1f8 == 0x1f8: c.append(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))))
                return z3.Or(c)
            raise Unsupported(name)
        return f
    if n.startswith("llvm.copysign"): return None
    if n.startswith("llvm.x86."): return x86_handler(n)
    return None
def x86_handler(n):
    if n.startswith(("llvm.x86.avx512.mask.cvt", "llvm.x86.avx512.mask.")): return None
    m = re.match(r"llvm\.x86\.(?:avx512\.|avx2\.|avx\.|sse2\.|ssse3\.|sse\.|sse41\.)(.*)", n)
    k = m.group(1) if m else ""
    if k in ("hadd.ps.256", "hadd.ps"):
        def f(e, st, ins, name, a):
            out = []
            for b in range(0, len(a[0]), 4):
                x, y = a[0][b:b+4], a[1][b:b+4]
                out += [e.fop(st, "fadd", "float", x[0], x[1]), e.fop(st, "fadd", "float", x[2], x[3]), e.fop(st, "fadd", "float", y[0], y[1]), e.fop(st, "fadd", "float", y[2], y[3])]
            return out
        return f
    mm = re.match(r"(psrli|pslli|psrai)\.([wdq])", k)
    if mm:
        op, w = {"psrli": "lshr", "pslli": "shl", "psrai": "ashr"}[mm.group(1)], {"w": 16, "d": 32, "q": 64}[mm.group(2)]
        def f(e, st, ins, name, a):
            s = e.conc(st, a[1], 32, 256, "shift amount")
            if s >= w:
                if op == "ashr": s = w - 1
                else: return [0] * len(a[0])
            return [e.binop(st, op, w, x, s, ()) for x in a[0]]
        return f
    if k.startswith("pmadd.wd") or k.startswith("pmaddw.d"):
        def f(e, st, ins, name, a):
            out = []
            for i in range(0, len(a[0]), 2):
                def sx(v): 
                    r = e.S(st, v, 16) if e.mode == "int" else z3.SignExt(16, e.zi(v, 16))
                    return r
                p, q = (PL.mul(sx(a[0][j]), sx(a[1][j])) if e.mode == "int" else sx(a[0][j]) * sx(a[1][j]) for j in (i, i + 1))
                out.append(e.wrapc(PL.add(p, q), 32) if e.mode == "int" else p + q)
            return out
        return f
    if k.startswith("psad.bw"):
        def f(e, st, ins, name, a):
            out = []
            for b in range(0, len(a[0]), 8):
                t = 0
                for i in range(b, b + 8):
                    d = _mm(e, st, 8, a[0][i], a[1][i], "umax"); m2 = _mm(e, st, 8, a[0][i], a[1][i], "umin")
                    t = PL.add(t, PL.sub(d, m2))
                out.append(t)
            return out
        return f
    if k.startswith(("max.p", "min.p")): return lambda e, st, ins, name, a: _fminmax(k.startswith("max"))(e, st, ins, name, a[:2])
    if k.startswith(("vfmadd", )): return vecmap(_fma)
    if k.startswith(("round.p", "round.ps.256")):
        def f(e, st, ins, name, a):
            kind = {0: "rint", 8: "rint", 9: "floor", 1: "floor", 2: "ceil", 10: "ceil", 3: "trunc", 11: "trunc", 4: "rint", 12: "rint"}[int(a[1])]
            return ipart(kind)(e, st, ins, name, [a[0]])
        return f
    return None

# ------------------------------------------------------------------ C/C++ runtime
def _new(e, st, ins, name, a):
    n = e.U(st, e.unpd(st, a[0], 64), 64)
    size = n if e.mode == "int" else e.off_of(n)
    if isinstance(a[0], PDiff): size = a[0].off
    g = st.aux.get("growing")
    o = e.new_obj(st, size, "heap", "heap", ("uninit",))
    e.assumed["operator new never fails"] = 1
    return Ptr(o.id, 0)
model(r"^operator new(\[\])?\(", "operator new")(_new)
model(r"^(malloc|aligned_alloc)$", "malloc")(lambda e, st, ins, name, a: _new(e, st, ins, name, [a[-1]]))
def _del(e, st, ins, name, a):
    p = e.toptr(st, a[0])
    if p.obj is None: return
    if isinstance(p.obj, int) and p.obj in st.mem:
        o = st.wobj(p.obj); 
        if not o.alive: e.oblige(st, False, "memory-safety:double-free", "mem")
        o.alive = False
        if st.wlog is not None and o.id <= st.wlog["mark"]: raise Unsupported("deallocation of outer memory in a loop")
model(r"^operator delete(\[\])?\(", "operator delete")(_del)
model(r"^free$", "free")(_del)
@model(r"^__cxa_allocate_exception$")
def _cxa_alloc(e, st, ins, name, a):
    o = e.new_obj(st, max(int(a[0]), 64), "exc", "heap"); return Ptr(o.id, 0)
@model(r"^__cxa_free_exception$")
def _cxa_free(e, st, ins, name, a): return None
@model(r"^__cxa_throw$")
def _cxa_throw(e, st, ins, name, a):
    ti = ins.a[1][1][1]
    e.throw(st, ti[1] if ti[0] == "glob" else "?", a[0]); return HANDLED
@model(r"^__cxa_rethrow$")
def _cxa_rethrow(e, st, ins, name, a): e.unwind(st); return HANDLED
@model(r"^__cxa_begin_catch$")
def _cxa_bc(e, st, ins, name, a): return a[0]
@model(r"^__cxa_end_catch$")
def _cxa_ec(e, st, ins, name, a): return None
@model(r"^__cxa_(guard_release|guard_abort|atexit|pure_virtual)$|^atexit$")
def _noop(e, st, ins, name, a): return 0
@model(r"^__cxa_guard_acquire$")
def _guard(e, st, ins, name, a):
    return 1
THROWS = {"length_error": "_ZTISt12length_error", "out_of_range": "_ZTISt12out_of_range", "out_of_range_fmt": "_ZTISt12out_of_range", "bad_alloc": "_ZTISt9bad_alloc", "bad_array_new_length": "_ZTISt20bad_array_new_length",
          "logic_error": "_ZTISt11logic_error", "invalid_argument": "_ZTISt16invalid_argument", "bad_optional_access": "_ZTISt19bad_optional_access", "bad_variant_access": "_ZTISt18bad_variant_access", "bad_function_call": "_ZTISt17bad_function_call", "system_error": "_ZTISt12system_error"}
@model(r"^std::__throw_(\w+)\(")
def _throwf(e, st, ins, name, a):
    k = re.match(r"std::__throw_(\w+)\(", e.dem.get(name, name)).group(1)
    e.throw(st, THROWS.get(k, "_ZTISt9exception")); return HANDLED
@model(r"^std::__glibcxx_assert_fail\(|^__glibcxx_assert_fail|^std::__replacement_assert\(")
def _gassert(e, st, ins, name, a):
    e.oblige(st, False, "library-precondition (index in range / non-empty) in " + e.shortfn(st), "mem"); raise PathEnd()
@model(r"^(abort|__assert_fail|exit|_exit|std::terminate\(\)|__clang_call_terminate)$")
def _abort(e, st, ins, name, a):
    e.oblige(st, False, "no-abort:" + short(e.dem.get(name, name)) + " in " + e.shortfn(st), "mem"); raise PathEnd()
model(r"^(std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|exception|overflow_error|domain_error|range_error)::)", "construction of standard exception objects")(_noop)
model(r"\bspdlog::", "logging (no effect)")(_noop)
def only_value(e, st, n):
    """the value of n if the path allows only one (small) value"""
    if isinstance(n, int): return n
    z = e.zi(n, 64); s = z3.Solver(); s.set("timeout", 2000)
    for c in st.pc:
        if not has_quant(c): s.add(c)
    if s.check() != z3.sat: return n
    v = s.model().eval(z, model_completion=True)
    try: v = v.as_long()
    except Exception: return n
    return v if 0 <= v <= 64 and e.prove(st, z == v) else n
@model(r"^(memcmp|bcmp)$", "memcmp")
def _memcmp(e, st, ins, name, a):
    n = only_value(e, st, e.U(st, e.unpd(st, a[2], 64), 64))
    if isinstance(n, int) and n <= 64:
        p, q = e.toptr(st, a[0]), e.toptr(st, a[1]); r = True
        eqs = []; k = 0
        while k < n:
            w = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
            try:
                x, y = e.load(st, IntTy(8 * w), Ptr(p.obj, PL.add(p.off, k))), e.load(st, IntTy(8 * w), Ptr(q.obj, PL.add(q.off, k)))
            except Unsupported:
                if w == 1: raise
                w = 1; x, y = e.load(st, IntTy(8), Ptr(p.obj, PL.add(p.off, k))), e.load(st, IntTy(8), Ptr(q.obj, PL.add(q.off, k)))
            eqs.append(e.icmp(st, "eq", IntTy(8 * w), x, y)); k += w
        c = And(*eqs)
        if c is True: return 0
        s = e.new_int(st, 32, "memcmp")
        z = e.zi(s, 32); st.pc.append(zb(c) == (z == 0))
        if name == "memcmp" and n <= 32:          # the first differing byte decides the sign
            lt = False
            for k in reversed(range(n)):
                try: x, y = e.load(st, IntTy(8), Ptr(p.obj, PL.add(p.off, k))), e.load(st, IntTy(8), Ptr(q.obj, PL.add(q.off, k)))
                except Unsupported: return s
                lt = z3.Or(zb(e.icmp(st, "ult", IntTy(8), x, y)), z3.And(zb(e.icmp(st, "eq", IntTy(8), x, y)), zb(lt)))
            st.pc.append((z < 0) == lt)
        return s
    if e.mode != "int": raise Unsupported("memcmp of symbolic length")
    # any length: the sign is that of the first differing byte
    p, q = e.toptr(st, a[0]), e.toptr(st, a[1]); r = e.new_int(st, 32, "memcmp"); z = e.zi(r, 32); N = PL.to_int(n)
    def at(t, k, *fs):
        s2 = t.clone(); s2.pc.extend(fs); kv = atom(k, (0, (1 << 64) - 1)); n0 = len(s2.pc)
        x = e.load(s2, IntTy(8), Ptr(p.obj, PL.add(p.off, kv))); y = e.load(s2, IntTy(8), Ptr(q.obj, PL.add(q.off, kv)))
        return e.zi(e.U(s2, x, 8), 8), e.zi(e.U(s2, y, 8), 8), And(*s2.pc[n0:])
    K, w = z3.Int(f"mk!{fresh_id()}"), z3.Int(f"mw!{fresh_id()}"); e._keep(w)
    x, y, f = at(st, K, K >= 0, K < N)
    eq = lambda hi: z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < hi), e.renorm(z3.And(zb(f), x == y))))
    xw, yw, fw = at(st, w, w >= 0, w < N)
    st.pc.append(z3.Or(z != 0, eq(N)))
    st.pc.append(z3.Or(z == 0, z3.And(w >= 0, w < N, zb(fw), xw != yw, eq(w), (z < 0) == (xw < yw) if name == "memcmp" else True)))
    st.pc.append(z3.Implies(N == 0, z == 0))
    return r
@model(r"^std::_Hash_bytes\(", "std::_Hash_bytes (any value)")
def _hashb(e, st, ins, name, a): return e.new_int(st, 64, "hash")
@model(r"^std::__detail::_Prime_rehash_policy::_M_need_rehash\(", "std::unordered_map rehash policy (keeps the bucket count)")
def _rehash(e, st, ins, name, a): return [0, e.new_int(st, 64, "buckets")]
@model(r"^strlen$", "strlen")
def _strlen(e, st, ins, name, a):
    p = e.toptr(st, a[0])
    try: return len(e.cstr_at(st, p))
    except Unsupported: pass
    for k in range(256):
        b = e.load(st, IntTy(8), Ptr(p.obj, PL.add(p.off, k)))
        if isinstance(b, int):
            if b == 0: return k
            continue
        z = e.zi(b, 8)
        if not e.prove(st, z != 0): raise Unsupported("strlen of symbolic text that may contain NUL")
    raise Unsupported("strlen of long symbolic text")
for fn in ("sqrt", "sqrtf"): model(rf"^{fn}$")(lambda e, st, ins, name, a: llvm_handler("llvm.sqrt.f32")(e, st, ins, name, a))
for fn, k in (("floorf", "floor"), ("floor", "floor"), ("ceilf", "ceil"), ("ceil", "ceil"), ("roundf", "round"), ("round", "round"), ("rintf", "rint"), ("nearbyintf", "rint")):
    model(rf"^{fn}$")(lambda e, st, ins, name, a, k=k: ipart(k)(e, st, ins, name, a))
for fn in ("expf", "exp", "log", "logf", "log2", "log2f", "sinf", "cosf", "sin", "cos"): model(rf"^{fn}$", "libm " + fn + " (uninterpreted)")(uf_real(fn))
for fn in ("pow", "powf"): model(rf"^{fn}$", "libm pow (uninterpreted)")(uf_real("pow", 2))
for fn, ix in (("lroundf", 64), ("lround", 64), ("lrintf", 64), ("lrint", 64)):
    def _lr(e, st, ins, name, a, fn=fn):
        v = ipart("round" if "round" in fn else "rint")(e, st, ins, name, a)
        return e.cast(st, "fptosi", FLOAT, IntTy(64), v)
    model(rf"^{fn}$")(_lr)

# ------------------------------------------------------------------ vector growth in place
VEC = r"std::vector<.*>::"
def grow_tag(e, st, ins): pass
@model(r"^(void |.*\b)?std::vector<.*>::_M_realloc_(insert|append)\b|^(void |.*)?std::vector<.*>::_M_(default_append|fill_insert|range_insert)\b|std::vector<.*>::reserve\(", "std::vector growth keeps the storage object (iterator invalidation not modelled)")
def _grow(e, st, ins, name, a):
    if name not in e.m.funcs: raise Unsupported(e.dem.get(name, name))
    st.aux["growing"] = st.aux.get("growing", ()) + ((len(st.frames) + 1, a[0]),)
    return INLINE
def growing(st): 
    g = st.aux.get("growing", ())
    n = len(st.frames)
    g = tuple(x for x in g if x[0] <= n)
    st.aux["growing"] = g
    return g[-1] if g else None
@model(r"^std::vector<.*>::_M_check_len\(", "std::vector never reaches max_size")
def _chk(e, st, ins, name, a):
    v = e.new_int(st, 64, "len"); return v
@model(r"^std::_Vector_base<.*>::_M_allocate\(")
def _valloc(e, st, ins, name, a):
    g = growing(st)
    if g is None or len(st.frames) != g[0]: return INLINE
    vec = e.toptr(st, g[1])
    s = e.load(st, PTR, vec)
    if s.obj is None:
        o = e.new_obj(st, None, "vec", "heap", ("uninit",)); o.tag["vecgrow"] = True
        e.last_grow_tag = {"vecgrow": True}
        return Ptr(o.id, 0)
    o = st.wobj(s.obj); o.size = None
    return s
@model(r"^std::_Vector_base<.*>::_M_deallocate\(")
def _vdealloc(e, st, ins, name, a):
    g = growing(st)
    if g is None or len(st.frames) != g[0]: return INLINE
    return None
@model(r"^std::vector<.*>::_S_(do_)?relocate\(|std::__uninitialized_move_if_noexcept_a<|std::__uninitialized_move_a<|std::__uninitialized_copy_a<")
def _reloc(e, st, ins, name, a):
    g = growing(st)
    if g is None or len(st.frames) != g[0]: return INLINE
    f, l, r = e.toptr(st, a[0]), e.toptr(st, a[1]), e.toptr(st, a[2])
    if f.obj == l.obj and PL.eqsyn(f.off, l.off) is True: return r
    if f.obj == r.obj and PL.eqsyn(f.off, r.off) is True: return l
    if f.obj == l.obj and e.prove(st, e.offcmp(st, "eq", f.off, l.off)): return r
    if f.obj is None: return r
    if f.obj != r.obj: return INLINE
    raise Unsupported("insertion in the middle of a growing vector")
@model(r"^void std::_Destroy<")
def _destroy(e, st, ins, name, a):
    g = growing(st)
    if g is not None and len(st.frames) == g[0]: return None
    if no_effect(e, name): return None
    return INLINE
def no_effect(e, name, seen=None):
    """does the function, with everything it calls, write only to its own stack slots? (destruction of trivial elements)"""
    c = e.__dict__.setdefault("_noeff", {})
    if name in c: return c[name]
    seen = seen if seen is not None else set()
    if name in seen: return True
    seen.add(name)
    f = e.m.funcs.get(name)
    if f is None: return name.startswith("llvm.lifetime") or name.startswith("llvm.dbg")
    ir.ensure(e.m, f); r = True
    work, done = [f.order[0]], set()
    while work and r:
        bn = work.pop()
        if bn in done: continue
        done.add(bn); b = f.blocks[bn]; skip = None
        for i in b.ins:
            if i.op in ("store", "atomicrmw", "cmpxchg", "resume", "landingpad"): r = False
            elif i.op in ("call", "invoke"):
                cn = i.a[0][1] if i.a[0][0] == "glob" else None
                if cn is None or not no_effect(e, cn, seen): r = False
                if i.op == "invoke": skip = i.a[3]
            if not r: break
        work += [x for x in b.succs if x != skip]
    c[name] = r
    return r
model(r"^pthread_mutex_(lock|unlock|init|destroy|trylock)$", "mutex operations (single-threaded contract)")(_noop)
@model(r"^strstr$")
def _strstr(e, st, ins, name, a):
    x, y = e.cstr_at(st, a[0]), e.cstr_at(st, a[1]); k = x.find(y); p = e.toptr(st, a[0])
    return NULL if k < 0 else Ptr(p.obj, PL.add(p.off, k))
@model(r"^strrchr$")
def _strrchr(e, st, ins, name, a):
    x = e.cstr_at(st, a[0]); k = x.rfind(chr(int(a[1]) & 255)); p = e.toptr(st, a[0])
    return NULL if k < 0 else Ptr(p.obj, PL.add(p.off, k))
@model(r"^std::_V2::(system|generic)_category\(\)")
def _syscat(e, st, ins, name, a):
    if getattr(e, "cat_obj", None) is None or e.cat_obj not in st.mem: e.cat_obj = e.new_obj(st, 64, "category", "heap").id
    return Ptr(e.cat_obj, 0)
