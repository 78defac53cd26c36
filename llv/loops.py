"""Loop cutting: frame discovery, closed forms, map summaries, and Houdini selection of inductive invariants."""
import re, time
import z3, math
import ir, poly as PL
from poly import Poly, atom, interval
from ir import IntTy, PTR, size_of
from engine import *
from execu import consts_of, contains, sym_born, Redo, Stop

EN_FAST = True
class Cand:
    __slots__ = ("name", "f", "hint")
    def __init__(self, name, f, hint=False): self.name, self.f, self.hint = name, f, hint

class Ctx:
    """values of the loop-carried locations at one point (entry, arbitrary iteration, back edge)"""
    def __init__(self, eng, st, vals, it): self.e, self.st, self.v, self.it = eng, st, vals, it

class Loc:
    __slots__ = ("key", "ty", "name", "mode", "init", "c", "hv", "dem", "g")
    def __init__(self, key, ty, name): self.key, self.ty, self.name, self.mode, self.init, self.c, self.hv, self.dem, self.g = key, ty, name, "fresh", None, None, None, False, None

class Info: pass

def vkey(v):
    if isinstance(v, Poly): return ("P", v.key())
    if isinstance(v, Ptr): return ("ptr", v.obj, v.off.key() if isinstance(v.off, Poly) else v.off)
    if isinstance(v, PDiff): return ("pd", v.obj, v.off.key() if isinstance(v.off, Poly) else v.off)
    if isinstance(v, list): return tuple(vkey(x) for x in v)
    if isinstance(v, FBits): return ("fb", vkey(v.b))
    if isinstance(v, Cat): return ("cat",) + tuple((vkey(b[1]), b[3]) if isinstance(b, tuple) else b for b in v.bs)
    if z3.is_expr(v): return ("z", v.get_id())
    if isinstance(v, tuple): return ("t", id(v))
    return v

class LoopMixin:
    MAXIT = 1 << 62
    hopeless = set()       # sum equations whose two sides differ in many terms: not worth a solver call
    # ------------------------------------------------------------ value helpers
    def subst_poly(self, st, p, pairs, conv):
        if not isinstance(p, Poly): return p
        out = 0
        for mono, c in p.m.items():
            t = c
            for i in mono:
                a = PL.ATOMS[i]
                b = z3.substitute(a, *pairs)
                if b.get_id() == i: nb = atom(a)
                else:
                    b = z3.simplify(b) if False else b
                    nb = PL.from_z3(b) if b.sort() != z3.RealSort() or True else atom(b)
                    if isinstance(nb, Poly) and len(nb.m) == 1 and nb.m.get((b.get_id(),)) == 1:
                        self._keep(b)
                        r = PL.RNG.get(i)
                        if r is not None:
                            nb = atom(b, r)
                            if not (z3.is_const(b)) and st is not None:
                                k = ("rf", nb.key())
                                if k not in st.ranges:
                                    st.ranges.add(k); st.pc.append(z3.And(b >= r[0], b <= r[1]))
                        bo = PL.BOOLI.get(i)
                        if bo is not None and not isinstance(bo, bool): PL.BOOLI[b.get_id()] = z3.substitute(bo, *pairs)
                t = PL.mul(t, nb)
            out = PL.add(out, t)
        return out
    def subst_val(self, st, v, pairs):
        if isinstance(v, Poly): return self.subst_poly(st, v, pairs, None)
        if isinstance(v, FBits): return FBits(self.subst_val(st, v.b, pairs))
        if isinstance(v, Ptr): return Ptr(v.obj, self.subst_val(st, v.off, pairs))
        if isinstance(v, PDiff): return PDiff(v.obj, self.subst_val(st, v.off, pairs))
        if isinstance(v, list): return [self.subst_val(st, x, pairs) for x in v]
        if z3.is_expr(v):
            r = z3.substitute(v, *pairs); self._keep(r)
            return r
        return v
    def val_consts(self, v):
        if isinstance(v, Poly):
            r = {}
            for mono in v.m:
                for i in mono: r.update(consts_of(PL.ATOMS[i]))
            return r
        if isinstance(v, FBits): return self.val_consts(v.b)
        if isinstance(v, (Ptr, PDiff)): return self.val_consts(v.off) if isinstance(v.off, Poly) else {}
        if isinstance(v, list):
            r = {}
            for x in v: r.update(self.val_consts(x))
            return r
        if z3.is_expr(v): return consts_of(v)
        return {}
    def only_it(self, v, born, mark, itz):
        """no symbol born in the loop except the iteration counter"""
        for c in (self.val_consts(v) if not isinstance(v, z3.ExprRef) else consts_of(v)).values():
            if itz is not None and c.get_id() == itz.get_id(): continue
            a, o = sym_born(c.decl().name())
            if a >= born or o > mark: return False
        return True
    def prove_q(self, st, g, ms=4000):
        g = simp_bool(g)
        if isinstance(g, bool): return g
        if g.get_id() in self.hopeless: return False
        if self.o.get("vq"): 
            import time as _t; t0 = _t.time()
            try: return self.prove_q2(st, g, ms)
            finally:
                if _t.time() - t0 > 0.5: print("SLOW", round(_t.time() - t0, 2), str(g)[:300].replace("\n", " "))
        return self.prove_q2(st, g, ms)
    def prove_q2(self, st, g, ms):
        if self.prove(st, g): return True
        if self.fl == "real" and not has_real(g) and not any(has_quant(c) for c in st.pc) and any(heavy_real(c) for c in st.pc): return False
        if not (has_quant(g) or any(has_quant(c) for c in st.pc)): 
            s = z3.Solver(); s.set("timeout", ms); s.add(*st.pc); s.add(z3.Not(g))
            t = time.time(); r = s.check(); self.stats["qtime"] += time.time() - t
            return r == z3.unsat
        if self.mode == "bv":
            import ground
            t = time.time(); ok = ground.try_ground(list(st.pc), g, ms / 1000.0); self.stats["qtime"] += time.time() - t
            if ok: return True
            if EN_FAST: return False
        # relevance: quantified hypotheses sharing a symbol with the goal first
        t = time.time(); ra = range_axioms(list(st.pc) + [g])
        s = z3.Solver(); s.set("timeout", ms); s.set("auto_config", False); s.set("mbqi", False)
        s.add(*st.pc); s.add(z3.Not(g)); s.add(*ra); r = s.check()
        if r == z3.unknown:
            s = z3.Solver(); s.set("timeout", ms); s.add(*st.pc); s.add(z3.Not(g)); s.add(*ra); r = s.check()
        self.stats["qtime"] += time.time() - t
        return r == z3.unsat

    # ------------------------------------------------------------ the cut
    def cut(self, st, h):
        fr = st.frames[-1]; fn = fr.fn; depth = len(st.frames)
        self.stats["loops_cut"] += 1
        for _ in range(4):
            try: return self._cut(st.clone(), h)
            except Materialize as m: st = m.st
        raise Unsupported("loop needs repeated materialisation")

    def _cut(self, st, h):
        t_start = time.time()
        fr = st.frames[-1]; fn = fr.fn; depth = len(st.frames)
        body = fn.loops[h]
        nobls = len(self.obls)
        fr.loops = {k: v for k, v in fr.loops.items() if k != h}
        # probes of enclosing loops are decided here: their exits are whatever they are
        mark = next(self.nobj)
        L = Info(); L.h, L.fn, L.body, L.depth, L.mark = h, fn, body, depth, mark
        L.locs, L.maps, L.arrs, L.demap = {}, {}, {}, set()
        for p in fn.blocks[h].phis:
            l = Loc(("phi", p.res), p.ty, p.res); l.init = fr.env[p.res]; L.locs[l.key] = l
        L.born = fresh_id()
        n = f"it!{fresh_id()}"
        if self.mode == "int": L.itz = z3.Int(n); L.it = atom(L.itz, (0, self.MAXIT)); L.itfact = z3.And(L.itz >= 0, L.itz <= self.MAXIT)
        else: L.itz = z3.BitVec(n, 64); L.it = L.itz; L.itfact = z3.ULE(L.itz, self.MAXIT)
        L.cands = []
        L.entry = st
        self.assumed["a loop runs fewer than 2^62 iterations"] = 1
        # ---- rounds: frame + closed forms + map summaries
        stable = False
        for rnd in range(14):
            self.check_deadline()
            H = self.build(L)
            ends, w, log = self.dryrun(L, H)
            ch = self.absorb(L, H, w, ends)
            ch = self.classify(L, H, ends) or ch
            ch = self.mapsum(L, H, ends) or ch
            if not ch: stable = True; break
        if not stable: raise Unsupported(f"loop frame of {short(fn.dname)} did not stabilise")
        # ---- candidates
        L.cands = self.gen_cands(L, H, ends, log, 1)
        init = Ctx(self, st, {k: l.init for k, l in L.locs.items()}, 0)
        keep = []
        for c in L.cands:
            try:
                g = c.f(init)
                if g is None: continue
                if self.prove_q(st, g): keep.append(c)
                elif self.o.get("vloop"): print("    init fails:", c.name)
            except (Unsupported, Fork) as ex:
                if self.o.get("vloop") and c.name.startswith("given"): print("    not expressible:", c.name, repr(ex))
        L.cands = keep
        for rnd in range(10):
            self.check_deadline()
            H = self.build(L)
            ends, w, log = self.dryrun(L, H)
            chg = [f.__name__ for f, a in ((self.absorb, (L, H, w, ends)), (self.classify, (L, H, ends, True)), (self.mapsum, (L, H, ends, True))) if f(*a)]
            if chg:
                if self.o.get("vloop"): print("frame changed", chg, fn.dname, h, [(l.name, l.mode, l.c) for l in L.locs.values()], L.arrs, w["w"])
                if rnd < 6: continue     # a different frame: check everything again under it
                raise Unsupported("loop frame changed under invariants in " + L.fn.dname[:80])
            bad = set()
            for kind, e in ends:
                if kind != "back": continue
                cx = self.backctx(L, e)
                for c in L.cands:
                    if c in bad: continue
                    ok = False
                    try:
                        g = c.f(cx)
                        ok = g is None or self.prove_q(e, g)
                    except (Unsupported, Fork): ok = False
                    if not ok: bad.add(c)
            if self.o.get("vloop") and bad: print("    dropped:", [c.name for c in bad])
            # a second chance for candidates generated only under the invariants (new path conditions)
            if not bad:
                if rnd < 3:
                    more = [c for c in self.gen_cands(L, H, ends, log) if c.name not in {x.name for x in L.cands} and c.name not in L.__dict__.setdefault("tried", set())]
                    add = []
                    for c in more:
                        L.tried.add(c.name)
                        try:
                            g = c.f(init)
                            if g is not None and self.prove_q(st, g): add.append(c)
                        except (Unsupported, Fork): pass
                    if add: L.cands += add; continue
                break
            for c in bad: L.__dict__.setdefault("tried", set()).add(c.name)
            L.cands = [c for c in L.cands if c not in bad]
        else: raise Unsupported("invariant search did not converge")
        if self.o.get("vloop"): print(f"  loop {short(fn.dname)}:{h} locs", [(l.name, l.mode, l.c) for l in L.locs.values()], "arrs", L.arrs.keys(), "maps", list(L.maps), "inv", [c.name for c in L.cands], f"{time.time()-t_start:.1f}s")
        if not self.dry:
            self.loopnotes.append(dict(function=short(fn.dname), loop=fn.lorder[h], invariants=[c.name for c in L.cands] + [f"{l.name}: {l.mode}" for l in L.locs.values() if l.mode in ("lin", "same")] + [f"map-summary of object {st.mem[o].name}" for o in L.maps]))
            for c in L.cands:
                g = c.f(init)
                if g is None: continue
                o = self._ob(st, f"invariant-initially:{short(fn.dname)}#{fn.lorder[h]}:{c.name}", z3.BoolVal(True), "invariant", True); o.backend = "z3-houdini"; self.obls.append(o)
        H = self.build(L)
        # memory written by the loop is also written by the enclosing loop's iteration
        for (oid, k), l in [(x[1:3], y) for x, y in L.locs.items() if x[0] == "cell"]:
            if oid in H.mem: self.log_write(H, H.mem[oid], ("cell", l.key[2], l.key[3]), l.ty)
        for oid, fs in L.arrs.items():
            for f in fs: self.log_write(H, H.mem[oid], ("arr",) + f)
        H.frames[-1].loops[h] = ("cut", L, 0, True, 0)
        return H

    def backctx(self, L, e):
        return Ctx(self, e, {k: self.locval(L, e, l) for k, l in L.locs.items()}, PL.add(L.it, 1) if self.mode == "int" else L.it + 1)
    def locval(self, L, st, l):
        if l.key[0] == "phi": return st.frames[-1].env[l.key[1]]
        o = st.mem.get(l.key[1])
        if o is None: raise Unsupported("carried object vanished")
        if l.ty.k == "ptr" and isinstance(l.init, Undef):
            try: return self.rd(st, o, l.key[2], l.ty)
            except Unsupported: return UNDEF
        return self.rd(st, o, l.key[2], l.ty)

    def build(self, L):
        """state at an arbitrary iteration"""
        s = L.entry.clone(); fr = s.frames[-1]
        s.pc.append(L.itfact)
        s.ghost["itstack"] = s.ghost.get("itstack", ()) + ((len(s.frames), L.fn, L.body, L.it),)
        if self.mode == "int": s.known[("U", 64, L.it.key())] = L.it
        for oid, fs in L.arrs.items():
            o = s.wobj(oid)
            if o.stride is None: self.force_stride(s, o, L.astride[oid])
            if oid in L.maps: o.top = Layer("fn", self.mapfn(L, oid), o.top)
            else:
                fields = None if any(f is None for f, _ in fs) else tuple(fs)
                o.top = Layer("hav", (fields, f"hv!{fresh_id()}_{o.id}"), o.top)
        L.hvals = {}
        for k, l in L.locs.items():
            x0 = l.init
            if l.mode == "same": v = x0
            elif l.mode == "lin":
                if isinstance(x0, Ptr): v = Ptr(x0.obj, PL.add(x0.off, self.itmul(l.c)))
                elif isinstance(x0, PDiff): v = PDiff(x0.obj, PL.add(x0.off, self.itmul(l.c)))
                elif self.mode == "int":
                    u = self.U(L.entry, x0, l.ty.n)
                    v = PL.add(u, PL.scale(L.it, l.c))
                    if isinstance(v, Poly):
                        z = PL.to_int(v); s.pc.append(z3.And(z >= 0, z < (1 << l.ty.n))); s.known[("U", l.ty.n, v.key())] = v
                else:
                    it = L.it if l.ty.n == 64 else z3.Extract(l.ty.n - 1, 0, L.it)
                    v = z3.simplify((z3.BitVecVal(x0, l.ty.n) if isinstance(x0, int) else x0) + l.c * it)
            else: v = self.havoc(s, L, l)
            L.hvals[k] = v; l.hv = v
            if k[0] == "phi": fr.env[k[1]] = v
            else:
                o = s.wobj(k[1])
                self.clear_cells(o, k[2], k[3])
                o.cells[k[2]] = (k[3], l.ty, v)
        cx = Ctx(self, s, L.hvals, L.it)
        L.npc = len(s.pc)
        for c in L.cands:
            g = c.f(cx)
            if g is not None and g is not True: s.pc.append(zb(g))
        L.npc2 = len(s.pc)
        return s
    def itmul(self, c): return PL.scale(self._L_it, c)
    def havoc(self, s, L, l):
        x0 = l.init
        if isinstance(x0, Undef):
            if l.ty.k == "ptr": return UNDEF      # a local of the body: written before it is read in every iteration
            x0 = None
        if l.ty.k == "ptr" or isinstance(x0, (Ptr, PDiff)):
            if isinstance(x0, Ptr) or isinstance(x0, PDiff):
                t = z3.Int(f"off!{fresh_id()}") if self.mode == "int" else z3.BitVec(f"off!{fresh_id()}", 64)
                off = atom(t)
                if l.g is None:
                    ob = L.entry.mem.get(x0.obj) if isinstance(x0.obj, int) else None
                    l.g = (ob.stride or (ob.tag or {}).get("elem") or self.gepstep(L, l) or 1) if ob is not None else 1
                g = l.g
                if isinstance(x0, Ptr): return Ptr(x0.obj, PL.add(x0.off, PL.scale(off, g)))
                return PDiff(x0.obj, PL.add(x0.off, PL.scale(off, g)))
            raise Unsupported("havoc of an unknown pointer")
        if l.ty.k == "array":     # block copy
            nm = f"hvb!{fresh_id()}"
            ob = Obj(next(self.nobj), size_of(l.ty), nm, "x", ("sym", nm)); ob.tag = {"align": 16}
            return ("lazy", ob, 0)
        return self.fresh_of(s, l.ty, f"{l.name}")
    def gepstep(self, L, l):
        """element size by which the loop's own code steps the pointer"""
        if l.key[0] != "phi": return None
        g = 0
        for b in L.fn.loops[L.h]:
            for ins in L.fn.blocks[b].ins:
                if ins.op == "getelementptr" and ins.a[1][0][1] == ("loc", l.key[1]) or (ins.op == "getelementptr" and str(ins.a[1][0][1]).find(repr(l.key[1])) >= 0):
                    g = math.gcd(g, size_of(ins.a[0]))
        return g or None
    def dryrun(self, L, H):
        self._L = L
        w = {"mark": L.mark, "w": set(), "ty": {}, "up": H.wlog}
        H.wlog = w
        self.dry += 1; log = []; self.cmplogs = self.cmplogs + [log]
        sk, self.dry_sink = self.dry_sink, None
        try: ends = self.explore([H.clone()], ("loop", L.depth, L.h, L.body))
        finally:
            self.dry -= 1; self.cmplogs = self.cmplogs[:-1]; self.dry_sink = sk
        return ends, w, log
    def absorb(self, L, H, w, ends):
        ch = False
        for rec in w["w"]:
            oid, kind = rec[0], rec[1]
            if oid not in L.entry.mem: continue
            if kind == "cell":
                off, sz = rec[2], rec[3]
                if oid in L.arrs: continue
                ty = w["ty"].get((oid, off))
                if ("cell", oid, off, sz) in L.locs: continue
                # overlapping location already there?
                ov = [k for k in L.locs if k[0] == "cell" and k[1] == oid and k[2] < off + sz and off < k[2] + k[3]]
                if ov:
                    if len(ov) == 1 and ov[0][2] <= off and off + sz <= ov[0][2] + ov[0][3]: continue
                    a = min([off] + [k[2] for k in ov]); b = max([off + sz] + [k[2] + k[3] for k in ov])
                    for k in ov: del L.locs[k]
                    off, sz, ty = a, b - a, None
                if ty is None or size_of(ty) != sz:
                    # typed cells in some end state?
                    ty = ir.Ty("array", sz, IntTy(8))
                    tys = None
                    for kind2, e in ends:
                        o = e.mem.get(oid)
                        if o is None or o.stride is not None: continue
                        cs = sorted((c, v) for c, v in o.cells.items() if c >= off and c + v[0] <= off + sz)
                        if cs and sum(v[0] for c, v in cs) == sz and all(v[1] is not None and v[1].k != "array" and not isinstance(v[2], tuple) for c, v in cs): tys = [(c, v[1]) for c, v in cs]
                    if tys:
                        for c, t in tys: self.addloc(L, oid, c, t)
                        ch = True; continue
                self.addloc(L, oid, off, ty); ch = True
            else:
                f = (rec[2], rec[3] if len(rec) > 3 else 0)
                if oid not in L.arrs: L.arrs[oid] = set()
                if f not in L.arrs[oid]: L.arrs[oid].add(f); ch = True
                if not hasattr(L, "astride"): L.astride = {}
                s = L.entry.mem[oid].stride
                if s is None:
                    ss = [e.mem[oid].stride for k2, e in ends if oid in e.mem and e.mem[oid].stride]
                    s = max(ss) if ss else None
                if L.astride.get(oid) != (s or 1):
                    if oid in L.astride and (s or 1) < L.astride[oid]: s = L.astride[oid]
                    else: L.astride[oid] = s or 1; ch = True
                for k in [k for k in L.locs if k[0] == "cell" and k[1] == oid]: del L.locs[k]
        return ch
    def addloc(self, L, oid, off, ty):
        k = ("cell", oid, off, size_of(ty))
        o = L.entry.mem[oid]
        l = Loc(k, ty, f"{o.name}+{off}")
        if ty.k == "array":
            l.init = None
        else:
            o2 = L.entry.wobj(oid)
            try: l.init = self.rd(L.entry, o2, off, ty)
            except Unsupported:
                l.init = UNDEF
        L.locs[k] = l
        l.mode = "fresh"
    def classify(self, L, H, ends, check=False):
        ch = False
        self._L_it = L.it if self.mode == "int" else atom(L.it)
        backs = [e for k, e in ends if k == "back"]
        for k, l in L.locs.items():
            if l.ty.k == "array": continue
            news = [self.locval(L, e, l) for e in backs]
            if l.g not in (None, 1) and l.mode == "fresh":
                for n in news:
                    d = PL.sub(n.off, l.hv.off) if isinstance(n, (Ptr, PDiff)) and isinstance(l.hv, (Ptr, PDiff)) else 1
                    if not (PL.divisible(d, l.g) if isinstance(d, Poly) else d % l.g == 0): l.g = 1; ch = True; break
            m, c = self.delta(L, l, news, backs)
            if m == "grow":
                raise Materialize(self.materialize(L, l, c))
            want = "fresh" if (l.dem is True) else m
            if want == "lin" and not self.lin_ok(L, l, c, backs): want = "fresh"
            if (want, c if want == "lin" else None) != (l.mode, l.c):
                ch = True
                if l.mode in ("lin", "same") and want != "same": l.dem = True; want = "fresh"
                l.mode, l.c = want, (c if want == "lin" else None)
        return ch
    def lin_ok(self, L, l, c, backs):
        if isinstance(l.init, (Ptr, PDiff)) or self.mode == "bv": return True
        if isinstance(l.init, Undef): return False
        # machine range is preserved (initial range holds by canonical form)
        for e in backs:
            v = self.locval(L, e, l)
            if not isinstance(v, Poly): continue
            hv = l.hv
            nv = PL.add(hv, c)
            z = PL.to_int(nv)
            if not self.prove(e, z3.And(z >= 0, z < (1 << l.ty.n))): return False
        return True
    def delta(self, L, l, news, backs):
        hv = l.hv
        if not news: return "same", None
        if all(vkey(n) == vkey(hv) for n in news): return "same", None
        if hv is None or isinstance(hv, Undef) or isinstance(l.init, Undef) or l.init is None: return "fresh", None
        ds = set()
        for n, e in zip(news, backs):
            if isinstance(hv, (Ptr, PDiff)):
                if not isinstance(n, (Ptr, PDiff)): return "fresh", None
                if n.obj != hv.obj:
                    if hv.obj is None and isinstance(n.obj, int) and n.obj in e.mem and (e.mem[n.obj].tag or {}).get("vecgrow"): return "grow", n
                    raise Unsupported(f"pointer {l.name} changes object in a loop of {short(L.fn.dname)}")
                d = PL.sub(n.off, hv.off)
                if isinstance(d, Poly): 
                    if self.prove(e, self.offcmp(e, "eq", n.off, hv.off)): d = 0
                    else: ds.add(None); g = self.coefgcd(d); l.dem = l.dem if l.dem else False; continue
                ds.add(d)
            elif l.ty.k == "int" and l.ty.n > 1 and self.mode == "int":
                d = PL.sub(n, hv)
                if isinstance(d, Poly):
                    ds.add(None); continue
                if d > (1 << (l.ty.n - 1)): d -= 1 << l.ty.n
                ds.add(int(d))
            elif l.ty.k == "int" and l.ty.n > 1:
                d = z3.simplify((z3.BitVecVal(n, l.ty.n) if isinstance(n, int) else n) - (z3.BitVecVal(hv, l.ty.n) if isinstance(hv, int) else hv))
                if not z3.is_bv_value(d): ds.add(None); continue
                ds.add(d.as_signed_long())
            else: ds.add(None)
        if ds == {0}: return "same", None
        if len(ds) == 1 and None not in ds:
            d = ds.pop()
            return "lin", d
        return "fresh", None
    def coefgcd(self, d): return 1
    def materialize(self, L, l, n):
        """an empty vector (three null pointers) becomes an empty storage object before the loop"""
        s = L.entry
        if l.key[0] != "cell": raise Unsupported("growing container through a register")
        _, oid, off, _ = l.key
        base = (s.mem[oid].tag or {}).get("vecbase", None)
        o = s.wobj(oid)
        # find the triple of null pointer cells
        for b in (off, off - 8, off - 16):
            ok = all((b + 8 * i) in o.cells and isinstance(o.cells[b + 8 * i][2], Ptr) and o.cells[b + 8 * i][2].obj is None for i in range(3))
            if ok:
                tag = dict(self.last_grow_tag)
                no = self.new_obj(s, None, "vec", "heap"); no.tag.update(tag); no.stride = tag.get("elem")
                for i in range(3): o.cells[b + 8 * i] = (8, PTR, Ptr(no.id, 0))
                return s
        raise Unsupported("growing container not recognised")

    # ------------------------------------------------------------ map summaries
    def mapsum(self, L, H, ends, check=False):
        backs = [e for k, e in ends if k == "back"]
        ch = False
        for oid in list(L.arrs):
            if oid in L.demap: continue
            sm = None
            try: sm = self.try_map(L, H, backs, oid)
            except Unsupported: sm = None
            old = L.maps.get(oid)
            if sm is None:
                if old is not None: del L.maps[oid]; L.demap.add(oid); ch = True
                elif any(l.mode == "lin" for l in L.locs.values()) and getattr(L, "mapround", 0) > 1: L.demap.add(oid)
            elif old is None:
                L.maps[oid] = sm; ch = True
            elif old["key"] != sm["key"]:
                ch = True; L.__dict__.setdefault("mapretry", {}); L.mapretry[oid] = L.mapretry.get(oid, 0) + 1
                if L.mapretry[oid] <= 2: L.maps[oid] = sm          # the first summary was computed from less knowledge
                else: del L.maps[oid]; L.demap.add(oid)
        L.mapround = getattr(L, "mapround", 0) + 1
        return ch
    def try_map(self, L, H, backs, oid):
        if not backs or oid not in H.mem: return None
        htop = H.mem[oid].top
        paths = []
        itk = self._L_it
        ik = list(itk.m)[0][0]
        a = sp = None; key = []
        for e in backs:
            o = e.mem[oid]
            ws = []; ly = o.top
            while ly is not htop:
                if ly is not None and ly.k == "fill" and isinstance(ly.a[1], int) and ly.a[1] <= 16 and isinstance(ly.a[2], int):
                    if not any(x[1] == ly.a[1] and PL.sub(x[0], ly.a[0]) == 0 for x in ws):     # fully overwritten by a later store
                        ws.append((ly.a[0], ly.a[1], IntTy(8 * ly.a[1]), int.from_bytes(bytes([ly.a[2] & 255]) * ly.a[1], "little")))
                    ly = ly.below; continue
                if ly is None or ly.k != "st": return None
                ws.append(ly.a); ly = ly.below
            if not ws: paths.append((e, [])); continue
            for off, sz, ty, v in ws:
                if not isinstance(off, Poly): return None
                cf = off.m.get((ik,), 0)
                if cf == 0: return None
                rest = PL.sub(off, PL.scale(itk, cf))
                if isinstance(rest, Poly) and not self.only_it(rest, L.born, L.mark, None): return None
                if sp is None: sp, a = cf, rest
                elif sp != cf: return None
                if isinstance(v, tuple):
                    if v[0] == "piece": return None
                    snap = v[1]; 
                    if snap.id > L.mark or snap.id in L.arrs or any(k[0] == "cell" and k[1] == snap.id for k in L.locs): return None
                    if isinstance(v[2], Poly) and not self.only_it(v[2], L.born, L.mark, L.itz): return None
                elif isinstance(v, Undef): return None
                elif not self.only_it(v, L.born, L.mark, L.itz): return None
            paths.append((e, ws))
        if sp is None: return None
        s = H.mem[oid].stride or 1
        # all writes within one span
        span = abs(int(sp))
        if span % s: return None
        res = []
        for e, ws in paths:
            out = []
            for off, sz, ty, v in ws:       # newest first
                d = PL.sub(PL.sub(off, a), PL.scale(itk, sp))
                if isinstance(d, Poly): return None
                out.append((int(d), sz, ty, v))
            res.append((e, out))
        lo = min([d for e, out in res for d, _, _, _ in out]); hi = max([d + sz for e, out in res for d, sz, _, _ in out])
        if hi - lo > span: return None
        conds = []
        if len(res) > 1:
            for e, out in res:
                cs = [c for c in e.pc[L.npc2:] ]
                good = [c for c in cs if self.only_it(c, L.born, L.mark, L.itz)]
                conds.append(good)
            # conditions must be expressible
            for (e, out), g in zip(res, conds):
                if any(not self.only_it(c, L.born, L.mark, L.itz) and not self.isrange(c) for c in e.pc[L.npc2:]): return None
        else: conds.append([])
        key = tuple((tuple((d, sz, str(ty), self.cstr(v, L.itz)) for d, sz, ty, v in out), tuple(str(c) for c in g) if len(res) > 1 else ()) for (e, out), g in zip(res, conds))
        return dict(a=a, sp=int(sp), lo=lo, hi=hi, paths=[(g, out) for (e, out), g in zip(res, conds)], key=tuple(sorted(map(str, key))))
    def isrange(self, c): return False
    def cstr(self, v, itz):
        if isinstance(v, Poly): return str(v.key())
        if isinstance(v, tuple): return f"lazy{v[1].id},{self.cstr(v[2], itz)}"
        return str(vkey(v))
    def mapfn(self, L, oid):
        sm = L.maps[oid]; itp = self._L_it; itz = L.itz
        def f(eng, st, o, off, ty):
            sz = size_of(ty)
            rel = PL.sub(PL.sub(off, sm["a"]), sm["lo"])
            sp = sm["sp"]; span = abs(sp)
            # rel = sp*k + d
            if not isinstance(rel, Poly): 
                k, d = (rel // span, rel % span) if sp > 0 else (-(rel // span), rel % span)
            else:
                c = rel.m.get((), 0)
                body = PL.sub(rel, c)
                if not PL.divisible(body, span): 
                    raise Unsupported("access across a summarised loop's elements")
                q = PL.exact_div(body, span); k = PL.add(q, int(c) // span); d = int(c) % span
                if sp < 0: k = PL.neg(k)
            d += sm["lo"]
            if self.mode == "int":
                kz = PL.to_int(k) if isinstance(k, Poly) else z3.IntVal(int(k))
                inr = z3.And(kz >= 0, kz < PL.to_int(itp))
            else:
                kz = PL.to_bv(k) if isinstance(k, Poly) else z3.BitVecVal(int(k) & (2**64 - 1), 64)
                inr = z3.ULT(kz, itz)
            below = None
            def getbelow():
                # next layer under this one
                ly = o.top
                while ly is not None and not (ly.k == "fn" and ly.a is f): ly = ly.below
                if ly is None: raise Unsupported("map layer lost")
                return eng.rd_stride(st, o, ly.below, off, ty)
            inr = simp_bool(z3.simplify(inr))
            if inr is False or (inr is not True and eng.prove(st, Not(inr))): return None
            sure = inr is True or eng.prove(st, inr)
            pairs = [(itz, kz)]
            r = None
            for g, out in reversed(sm["paths"]):
                v = None
                for wd, wsz, wty, wv in out:
                    if wd == d and wsz == sz or (wd <= d and d + sz <= wd + wsz):
                        if isinstance(wv, tuple): 
                            v = eng.rdlazy(st, ("lazy", wv[1], PL.add(self.subst_val(st, wv[2], pairs), d - wd)), ty, sz)
                        else:
                            sv = self.subst_val(st, wv, pairs)
                            v = eng.lconv(st, sv, wty, ty) if wd == d and wsz == sz else eng.from_bytes(st, eng.bytes_of(st, sv, wty)[d - wd:d - wd + sz], ty)
                        break
                    if wd < d + sz and d < wd + wsz: raise Unsupported("partial overlap in a summarised loop")
                if v is None: v = getbelow()
                if r is None: r = v
                else:
                    cond = z3.And([z3.substitute(c, *pairs) for c in g]) if g else z3.BoolVal(True)
                    r = eng.ite(st, cond, v, r, ty)
            if sure: return r
            return eng.ite(st, inr, r, getbelow(), ty)
        return f

    # ------------------------------------------------------------ candidates
    def gen_cands(self, L, H, ends, log, stage=2):
        cs = []; self._nmborn = L.born
        if self.o.get("vlog"): print("LOG", [(k, o, str(x), str(y)) for k, o, x, y in log], [(l.name, l.init) for l in L.locs.values()])
        backs = [e for k, e in ends if k == "back"]
        ints = [l for l in L.locs.values() if l.ty.k == "int" and l.ty.n > 1 and l.mode in ("fresh", "lin") and not isinstance(l.init, (Ptr, PDiff, Undef))]
        ptrs = [l for l in L.locs.values() if (isinstance(l.init, (Ptr, PDiff))) and l.mode in ("fresh", "lin")]
        seen = set()
        def add(name, f, hint=False):
            if name not in seen: seen.add(name); cs.append(Cand(name, f, hint))
        inv = lambda v: self.only_it(v, L.born, L.mark, None) if isinstance(v, Poly) or z3.is_expr(v) else True
        if self.mode == "int":
            bounds = {}; pb = {}
            for kind, obj, x, y in log:
                if kind == "b": continue
                for a, b in ((x, y), (y, x)):
                    if isinstance(b, (Poly, int)) and inv(b) and not (isinstance(a, Poly) and inv(a)) and isinstance(a, Poly):
                        k = b.key() if isinstance(b, Poly) else b
                        if kind == "i": bounds[k] = b
                        else: pb.setdefault(obj, {})[k] = b
            for t in self.o.get("bounds", []): 
                v = t(L.entry)
                if v is not None: bounds[v.key() if isinstance(v, Poly) else v] = v
            for l in ints:
                w = l.ty.n
                def U(cx, v): return self.U(cx.st, v, w)
                for k, b in list(bounds.items())[:12]:
                    bn = self.nm(b)
                    add(f"{l.name}<={bn}", lambda cx, l=l, b=b, w=w: self.le(self.U(cx.st, cx.v[l.key], w), b))
                    add(f"{l.name}>={bn}", lambda cx, l=l, b=b, w=w: self.le(b, self.U(cx.st, cx.v[l.key], w)))
                    add(f"{l.name}<{bn}", lambda cx, l=l, b=b, w=w: self.le(PL.add(self.U(cx.st, cx.v[l.key], w), 1), b))
                    if l.mode == "lin" and isinstance(l.c, int) and l.c > 1:
                        add(f"{l.name}<={bn}+{l.c-1}", lambda cx, l=l, b=b, w=w: self.le(self.U(cx.st, cx.v[l.key], w), PL.add(b, l.c - 1)))
                if l.mode == "fresh":
                    x0 = self.U(L.entry, l.init, w)
                    add(f"{l.name}>=init", lambda cx, l=l, x0=x0, w=w: self.le(x0, self.U(cx.st, cx.v[l.key], w)))
                    add(f"{l.name}<=init", lambda cx, l=l, x0=x0, w=w: self.le(self.U(cx.st, cx.v[l.key], w), x0))
                    add(f"{l.name}<=init+it", lambda cx, l=l, x0=x0, w=w: self.le(self.U(cx.st, cx.v[l.key], w), PL.add(x0, cx.it)))
                    for l2 in ints:
                        if l2 is not l and l2.ty.n == w:
                            add(f"{l.name}<={l2.name}", lambda cx, l=l, l2=l2, w=w: self.le(self.U(cx.st, cx.v[l.key], w), self.U(cx.st, cx.v[l2.key], w)))
                            if l2.mode == "fresh": continue
                            add(f"{l2.name}<={l.name}", lambda cx, l=l, l2=l2, w=w: self.le(self.U(cx.st, cx.v[l2.key], w), self.U(cx.st, cx.v[l.key], w)))
            for i1, l in enumerate(ints):
                for l2 in ints[i1 + 1:]:
                    if l.mode != "fresh" or l2.mode != "fresh" or l.ty.n != l2.ty.n: continue
                    w = l.ty.n
                    s0 = PL.add(self.U(L.entry, l.init, w), self.U(L.entry, l2.init, w))
                    sm = lambda cx, l=l, l2=l2, w=w: PL.add(self.U(cx.st, cx.v[l.key], w), self.U(cx.st, cx.v[l2.key], w))
                    add(f"{l.name}+{l2.name}<=init", lambda cx, sm=sm, s0=s0: self.le(sm(cx), s0))
                    add(f"{l.name}+{l2.name}>=init", lambda cx, sm=sm, s0=s0: self.le(s0, sm(cx)))
            for l in ptrs:
                for k, b in list(pb.get(l.init.obj, {}).items())[:8]:
                    add(f"{l.name}.off<={self.nm(b)}", lambda cx, l=l, b=b: self.le(cx.v[l.key].off, b))
                    add(f"{l.name}.off>={self.nm(b)}", lambda cx, l=l, b=b: self.le(b, cx.v[l.key].off))
                    if l.mode == "lin" and l.c and l.c > 0: add(f"{l.name}.off<{self.nm(b)}", lambda cx, l=l, b=b: self.le(PL.add(cx.v[l.key].off, l.c), b))
                if l.mode == "fresh":
                    add(f"{l.name}.off>=init", lambda cx, l=l: self.le(l.init.off, cx.v[l.key].off))
                    add(f"{l.name}.off<=init", lambda cx, l=l: self.le(cx.v[l.key].off, l.init.off))
                    for l2 in ptrs:
                        if l2 is not l and l2.init.obj == l.init.obj:
                            add(f"{l.name}.off<={l2.name}.off", lambda cx, l=l, l2=l2: self.le(cx.v[l.key].off, cx.v[l2.key].off))
        else:
            bounds = {}
            for rec in log:
                if rec[0] != "b": continue
                _, w, x, y = rec
                for a, b in ((x, y), (y, x)):
                    if (isinstance(b, int) or inv(b)) and z3.is_expr(a) and not inv(a): bounds[(w, b if isinstance(b, int) else b.get_id())] = b
            for l in ints:
                w = l.ty.n
                Z = lambda v, w=w: z3.BitVecVal(v, w) if isinstance(v, int) else v
                for (bw, k), b in list(bounds.items())[:10]:
                    if bw != w: continue
                    add(f"{l.name}<={self.nm(b)}", lambda cx, l=l, b=b, Z=Z: z3.ULE(Z(cx.v[l.key]), Z(b)))
                    add(f"{l.name}>={self.nm(b)}", lambda cx, l=l, b=b, Z=Z: z3.UGE(Z(cx.v[l.key]), Z(b)))
                add(f"{l.name}>=init", lambda cx, l=l, Z=Z: z3.UGE(Z(cx.v[l.key]), Z(l.init)))
                add(f"{l.name}<=init", lambda cx, l=l, Z=Z: z3.ULE(Z(cx.v[l.key]), Z(l.init)))
            pb = {}
            for rec in log:
                if rec[0] != "p": continue
                _, ob, x, y = rec
                for a, b in ((x, y), (y, x)):
                    if inv(b) and isinstance(a, Poly) and not inv(a): pb.setdefault(ob, {})[b.key() if isinstance(b, Poly) else b] = b
            B64 = lambda v: v if z3.is_expr(v) else PL.to_bv(v) if isinstance(v, Poly) else z3.BitVecVal(int(v), 64)
            for l in ptrs:
                if l.mode != "lin" or not l.c or l.c < 0: continue
                for k, b in list(pb.get(l.init.obj, {}).items())[:6]:
                    d = PL.sub(b, l.init.off)
                    if isinstance(d, Poly) and not PL.divisible(d, l.c): continue
                    if not isinstance(d, Poly) and d % l.c: continue
                    q = PL.exact_div(d, l.c) if isinstance(d, Poly) else d // l.c
                    add(f"{l.name}.off<={self.nm(b)}", lambda cx, q=q: z3.ULE(B64(cx.it), B64(q)))
                    add(f"{l.name}.off<{self.nm(b)}", lambda cx, q=q: z3.ULT(B64(cx.it), B64(q)))
        # running extrema kept twice (once by the code, once by a ghost): equal locations stay equal
        if self.fl == "real":
            fq = [l for l in L.locs.values() if l.mode == "fresh" and l.ty.k in ("float", "double") and not isinstance(l.init, Undef)]
            for i1, l in enumerate(fq[:6]):
                for l2 in fq[i1 + 1:6]:
                    if l.ty.k != l2.ty.k: continue
                    def eqf(cx, l=l, l2=l2):
                        a, b = cx.v[l.key], cx.v[l2.key]
                        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported("undef")
                        d = PL.sub(a, b)
                        return PL.to_real(a) == PL.to_real(b) if isinstance(d, Poly) else d == 0
                    try:
                        d0 = PL.sub(l.init, l2.init)
                        if not isinstance(d0, Poly) and d0 != 0: continue
                    except Exception: continue
                    add(f"{l.name}=={l2.name}", eqf)
        # sum specifications
        if self.fl == "real":
            fl = []
            for l in L.locs.values():
                if l.mode != "fresh": continue
                if l.ty.k in ("float", "double"): fl.append((l, None))
                elif l.ty.k == "vec" and l.ty.el.k in ("float", "double"): fl.append((l, l.ty.n))
            sums = H.ghost.get("sums", ())
            if fl and sums:
                groups = [("all", fl)] + ([(l.name, [(l, n)]) for l, n in fl] if len(fl) > 1 else [])
                idx = []
                for l in ints: idx.append((l.name, (lambda cx, l=l: self.U(cx.st, cx.v[l.key], l.ty.n) if not isinstance(cx.v[l.key], int) else cx.v[l.key])))
                for l in ptrs:
                    for es in (4, 1, 2, 8):
                        if (l.mode == "lin" and l.c % es == 0) and (PL.divisible(l.init.off, es) if isinstance(l.init.off, Poly) else l.init.off % es == 0):
                            idx.append((f"{l.name}/{es}", lambda cx, l=l, es=es: PL.exact_div(cx.v[l.key].off, es))); break
                idx.append(("it", lambda cx: cx.it))
                for m in (2, 4, 8, 16, 32, 64): idx.append((f"{m}*it", lambda cx, m=m: PL.scale(cx.it, m) if isinstance(cx.it, Poly) else cx.it * m))
                def tot(cx, g):
                    t = 0
                    for l, n in g:
                        v = cx.v[l.key]
                        if isinstance(v, Undef): raise Unsupported("undef accumulator")
                        for x in (v if n else [v]): 
                            if isinstance(x, Undef): raise Unsupported("undef accumulator")
                            t = PL.add(t, x)
                    return t
                for gn, g in groups:
                    for S in sums:
                        for inm, fi in idx:
                            def f(cx, g=g, S=S, fi=fi):
                                c0 = Ctx(self, L.entry, {k: l.init for k, l in L.locs.items()}, 0)
                                lhs = PL.sub(tot(cx, g), tot(c0, g)); rhs = PL.sub(S.at(cx.st, fi(cx)), S.at(cx.st, fi(c0)))
                                d = PL.sub(lhs, rhs)
                                if not isinstance(d, Poly): return d == 0
                                q = PL.to_real(lhs) == PL.to_real(rhs)
                                if sum(len(k) > 1 for k in d.m) > 6: self._keep(q); self.hopeless.add(q.get_id())
                                return q
                            add(f"sum({gn})=={S.name}({inm})", f)
        if self.mode == "int" and stage == 2: self.path_cands(L, H, backs, ints, add)
        if self.mode == "bv" and stage == 2: self.path_cands_bv(L, H, backs, add)
        if self.mode == "int": self.pred_cands(L, ints, ptrs, add)
        for i, (pat, fnp, cxp) in enumerate(L.entry.ghost.get("loopinv", ())):
            pt, _, od = pat.partition("#")
            if pt in L.fn.dname and (not od or int(od) == L.fn.lorder[L.h]): add(f"given:{pat}:{i}", lambda cx, fnp=fnp, cxp=cxp: self.closure_inv(cx, fnp, cxp, L), True)
        for i, (pat, fnp, cxp) in enumerate(L.entry.ghost.get("tracks", ())):
            if pat not in L.fn.dname: continue
            for l in ints:
                if l.mode == "fresh": add(f"track:{i} {l.name}", lambda cx, fnp=fnp, cxp=cxp, l=l: self.closure_inv(cx, fnp, cxp, L, l))
        for pat, fn in self.loopspecs:
            if re.search(pat, L.fn.dname):
                for nm, f in fn(self, L, H, ends): add("given:" + nm, f, True)
        return cs
    def pred_cands(self, L, ints, ptrs, add):
        """index predicates named by the harness, tried below and above every index-like quantity of the loop"""
        preds = [(i, pat, fnp, cxp) for i, (pat, fnp, cxp) in enumerate(L.entry.ghost.get("preds", ())) if pat in L.fn.dname]
        if not preds: return
        qs = []
        fr = [l for l in ints if l.mode in ("fresh", "lin")]
        for l in fr: qs.append((l.name, lambda cx, l=l: self.U(cx.st, cx.v[l.key], l.ty.n)))
        for i1, l in enumerate(fr):
            for l2 in fr[i1 + 1:]:
                if l.ty.n == l2.ty.n and l.mode == l2.mode == "fresh": qs.append((f"({l.name}+{l2.name})", lambda cx, l=l, l2=l2: PL.add(self.U(cx.st, cx.v[l.key], l.ty.n), self.U(cx.st, cx.v[l2.key], l2.ty.n))))
        for l in ptrs:
            ob = L.entry.mem.get(l.init.obj) if isinstance(l.init.obj, int) else None
            es = (ob.stride or (ob.tag or {}).get("elem")) if ob is not None else None
            if not es or not isinstance(l.init, Ptr): continue
            def pq(cx, l=l, es=es):
                o = cx.v[l.key].off
                if not isinstance(o, Poly): return o // es
                if not PL.divisible(o, es): raise Unsupported("offset")
                return PL.exact_div(o, es)
            qs.append((l.name, pq))
        def mk(q, fnp, cxp, below, neg):
            def f(cx):
                x = q(cx)
                J = z3.Int(f"j!{fresh_id()}"); jv = atom(J, (0, (1 << 64) - 1))
                s = cx.st.clone(); lim = z3.And(J >= 0, J < (1 << 63))
                rng = z3.And(lim, zb(self.le(PL.add(jv, 1), x)) if below else zb(self.le(x, jv)))
                s.pc.append(rng); n0 = len(s.pc)
                ends, _ = self.eval_fn(s, fnp, [cxp, jv], "pred")
                ps = []
                for pc, r, en in ends:
                    r = zb(r if not isinstance(r, int) else bool(r))
                    if neg: r = z3.Not(r)
                    ps.append(zb(Implies(And(*en.pc[n0:]), r)))
                if not ps: return True
                return z3.ForAll([J], z3.Implies(rng, self.renorm(z3.And(ps) if len(ps) > 1 else ps[0])))
            return f
        for nm, q in qs:
            for i, pat, fnp, cxp in preds:
                for below in (True, False):
                    add(f"pred{i} {'below' if below else 'from'} {nm}", mk(q, fnp, cxp, below, False))
    def outer_it(self, st):
        """iterations done by the innermost cut loop that encloses the current point of st"""
        for d, fn, body, it in reversed(st.ghost.get("itstack", ())):
            if d <= len(st.frames) and st.frames[d - 1].fn is fn and st.frames[d - 1].blk in body: return it
        return 0
    def closure_inv(self, cx, fnp, cxp, L, track=None):
        self.cur_outer = self.outer_it(L.entry)
        ends, _ = self.eval_fn(cx.st, fnp, [cxp, cx.it], "inv")
        n0 = len(cx.st.pc); ps = []
        for pc, r, en in ends:
            if track is not None:
                w = track.ty.n; v = cx.v[track.key]
                if isinstance(v, Undef): raise Unsupported("undef")
                if self.mode == "int": a, b = self.U(cx.st, v, w), self.U(cx.st, r, 64); r = And(zb(self.le(a, b)), zb(self.le(b, a)))
                else:
                    B = lambda x, n: z3.BitVecVal(x & ((1 << n) - 1), n) if isinstance(x, int) else PL.to_bv(x) if isinstance(x, Poly) else x
                    r = B(v, w) == (z3.Extract(w - 1, 0, B(r, 64)) if w < 64 else B(r, 64))
            r = r if not isinstance(r, int) else bool(r)
            ps.append(zb(Implies(And(*en.pc[n0:]), r)))
        return z3.And(ps) if len(ps) > 1 else (ps[0] if ps else True)
    def nm(self, b):
        if not isinstance(b, Poly) and not z3.is_expr(b): return str(b)
        t = re.sub(r"\s+", " ", str(PL.to_int(b) if isinstance(b, Poly) else b))
        bn = getattr(self, "_nmborn", 0)
        t = re.sub(r"!(\d+)", lambda m: "'" if int(m.group(1)) >= bn else m.group(0), t).replace("18446744073709551616", "2^64")
        return t[:160]
    def le(self, a, b):
        d = PL.sub(a, b)
        if not isinstance(d, Poly): return d <= 0
        pos = PL.norm({k: v for k, v in d.m.items() if v > 0}); ng = PL.norm({k: -v for k, v in d.m.items() if v < 0})
        return PL.to_int(pos) <= PL.to_int(ng)

    def path_cands_bv(self, L, H, backs, add):
        """every earlier iteration satisfied its path condition (bit-vector counter)"""
        ik = L.itz
        def ok(t): return all(c.get_id() == ik.get_id() or (sym_born(c.decl().name())[0] < L.born and sym_born(c.decl().name())[1] <= L.mark) for c in consts_of(t).values())
        def fl(c, out):
            if z3.is_and(c):
                for x in c.children(): fl(x, out)
            else: out.append(c)
        per = []
        for e in backs:
            a = []
            for c in e.pc[L.npc2:]:
                if not has_quant(c): fl(c, a)
            per.append([x for x in a if ok(x) and contains(x, ik) and self.has_sel(x)])
        if not per or not all(per): return
        body = z3.Or([z3.And(g) if len(g) > 1 else g[0] for g in per]) if len(per) > 1 else (z3.And(per[0]) if len(per[0]) > 1 else per[0][0])
        def q(b):
            def f(cx):
                it = z3.BitVecVal(cx.it, 64) if isinstance(cx.it, int) else cx.it
                k = z3.BitVec(f"k!{fresh_id()}", 64)
                return z3.ForAll([k], z3.Implies(z3.ULT(k, it), z3.substitute(b, (ik, k))))
            return f
        add("path(k)@" + self.nm(body)[:100], q(body))
    def path_cands(self, L, H, backs, ints, add):
        """candidates read off the path conditions of one iteration"""
        ik = L.itz
        itp = self._L_it
        carried = {}          # symbol id -> (loc, lane)
        for l in L.locs.values():
            if l.mode != "fresh": continue
            v = l.hv
            if isinstance(v, (Ptr, PDiff)): v = v.off
            if isinstance(v, Poly):
                for c in self.val_consts(v).values():
                    if sym_born(c.decl().name())[0] >= L.born: carried[c.get_id()] = (l, c)
        newsyms_ok = lambda t, extra=(): all(sym_born(c.decl().name())[0] < L.born and sym_born(c.decl().name())[1] <= L.mark or c.get_id() == ik.get_id() or c.get_id() in extra for c in consts_of(t).values())
        def atoms_of(e):
            out = []
            def fl(c):
                if z3.is_and(c): 
                    for x in c.children(): fl(x)
                else: out.append(c)
            for c in e.pc[L.npc2:]:
                if not has_quant(c): fl(c)
            return out
        per = [atoms_of(e) for e in backs]
        # --- P1: every earlier iteration satisfied its path condition
        def quant_it(body, ctxit, j=None):
            """forall k in [0,it): body[it->k], re-indexed on a select if possible"""
            k = z3.Int(f"k!{fresh_id()}")
            rest = None
            sel = self.find_sel(body, ik)
            if sel is not None:
                # sel index = it + rest
                t = z3.substitute(body, (ik, k - PL.to_int(sel)))
                kk = PL.sub(atom(k), sel)
                lo = self.le(0, kk); hi = self.le(PL.add(kk, 1), ctxit)
                return z3.ForAll([k], z3.Implies(And(zb(lo), zb(hi)), z3.simplify(t, som=True, arith_lhs=False) if False else self.renorm(t)))
            t = z3.substitute(body, (ik, k))
            return z3.ForAll([k], z3.Implies(z3.And(k >= 0, zb(self.le(PL.add(atom(k), 1), ctxit))), t))
        if per and len(per) <= 12:
            gs = []
            for a in per:
                g = [x for x in a if newsyms_ok(x) and contains(x, ik) and not self.trivial_range(x, ik)]
                gs.append(g)
            if all(gs):
                body = z3.Or([z3.And(g) if len(g) > 1 else g[0] for g in gs]) if len(gs) > 1 else (z3.And(gs[0]) if len(gs[0]) > 1 else gs[0][0])
                add("path(k)@" + self.nm(body)[:60], lambda cx, body=body: True if isinstance(cx.it, int) else quant_it(body, cx.it))
                if len(gs) == 1 and len(gs[0]) > 1:
                    for x in gs[0]: add("path(k)@" + self.nm(x)[:60], lambda cx, body=x: True if isinstance(cx.it, int) else quant_it(body, cx.it))
                common = [x for x in gs[0] if all(any(x.eq(y) for y in g) for g in gs[1:])] if len(gs) > 1 else []
                for x in common: add("path(k)@" + self.nm(x)[:60], lambda cx, body=x: True if isinstance(cx.it, int) else quant_it(body, cx.it))
        # --- P2: binary-search style updates: what every update of the bound established about the entry it steps over
        for l in ints:
            if l.mode != "fresh": continue
            ups = []
            for e, a in zip(backs, per):
                v = self.locval(L, e, l)
                if isinstance(v, Poly) and vkey(v) != vkey(l.hv): ups.append((v, a))
                elif not isinstance(v, Poly): ups = []; break
            if not ups: continue
            w = l.ty.n; x0 = self.U(L.entry, l.init, w)
            bases = set()
            for v, a in ups: bases |= {0, v.m.get((), 0)}
            for base in bases | {1, -1}:
                j = z3.Int(f"j!{fresh_id()}"); gs = []
                for v, a in ups:
                    t = PL.sub(v, base); g2 = []
                    if isinstance(t, Poly):
                        tz = PL.to_int(t)
                        for x in a:
                            if self.rangefact(x) or not contains(x, tz): continue
                            g = z3.substitute(x, (tz, j))
                            if not newsyms_ok(g, (j.get_id(),)) or contains(g, ik) or self.cmp_only(g, j): continue
                            g2.append(self.renorm(g))
                    gs.append(g2)
                if not all(gs): continue
                body = Or(*[And(*g) for g in gs]) if len(gs) > 1 else And(*gs[0])
                bodies = [body] + [x for x in gs[0] if len(gs[0]) > 1 and all(any(x.eq(y) for y in g) for g in gs[1:])]
                for gp in bodies:
                    nm = self.nm(z3.substitute(gp, (j, z3.Int("j"))))
                    def atlast(cx, l=l, gp=gp, j=j, x0=x0, w=w, base=base):
                        v = self.U(cx.st, cx.v[l.key], w)
                        zv, z0 = PL.to_int(v), PL.to_int(x0)
                        return Or(zv == z0, z3.substitute(gp, (j, PL.to_int(PL.sub(v, base)))))
                    add(f"last-update({l.name}-{base})@{nm}", atlast)
                    add(f"below({l.name})@{nm}", lambda cx, l=l, gp=gp, j=j, x0=x0, w=w: z3.ForAll([j], z3.Implies(And(zb(self.le(x0, atom(j))), zb(self.le(PL.add(atom(j), 1), self.U(cx.st, cx.v[l.key], w)))), gp)))
                    add(f"above({l.name})@{nm}", lambda cx, l=l, gp=gp, j=j, x0=x0, w=w: z3.ForAll([j], z3.Implies(And(zb(self.le(self.U(cx.st, cx.v[l.key], w), atom(j))), zb(self.le(PL.add(atom(j), 1), x0))), gp)))
        # --- P3: running extremum
        cloc = {}
        for cid, (l, c) in carried.items(): cloc[cid] = (l, c)
        def cur(cx, l, c, body):
            """replace the loop symbol of l by the value in cx"""
            v = cx.v[l.key]
            if isinstance(v, (Ptr, PDiff)): raise Unsupported("ptr")
            if isinstance(v, Undef): raise Unsupported("undef")
            zz = (PL.to_real(v) if c.sort() == z3.RealSort() else PL.to_int(self.U(cx.st, v, l.ty.n)))
            return z3.substitute(body, (c, zz))
        done = set()
        for e, a in zip(backs, per):
            for x in a:
                y = x.children()[0] if z3.is_not(x) else x
                if y.get_id() in done or not contains(y, ik): continue
                cs = [c for c in consts_of(y).values() if c.get_id() in carried]
                if len(cs) != 1 or not newsyms_ok(y, (cs[0].get_id(),)): continue
                done.add(y.get_id())
                l, c = carried[cs[0].get_id()]
                for sg in (y, z3.Not(y)):
                    add(f"all-earlier@{self.nm(sg)[:60]}", lambda cx, l=l, c=c, sg=sg: True if isinstance(cx.it, int) else quant_it(cur(cx, l, c, sg), cx.it))
        # weak orders: c <= x / c >= x for values compared with it
        fresh = [l for l in L.locs.values() if l.mode == "fresh"]
        for e in backs:
            vals = {l.key: self.locval(L, e, l) for l in fresh}
            idxs = []; tgt = []
            for l in fresh:
                v = vals[l.key]
                if not isinstance(v, Poly): continue
                if vkey(v) == vkey(l.hv): continue
                if l.ty.k == "int" and l.ty.n > 1:
                    d = PL.sub(v, itp)
                    if not isinstance(d, Poly) or self.only_it(d, L.born, L.mark, None): idxs.append((l, d))
                z = PL.to_real(v) if l.ty.k in ("float", "double") else PL.to_int(v) if l.ty.k == "int" and l.ty.n > 1 else None
                if z is not None and newsyms_ok(z) and contains(z, ik): tgt.append((l, v, z))
            for l, v, z in tgt:
                if any(l is q for q, _ in idxs): continue
                re_ = l.ty.k in ("float", "double")
                def cz(cx, l=l, re_=re_): 
                    cv = cx.v[l.key]
                    if isinstance(cv, Undef): raise Unsupported("undef")
                    return PL.to_real(cv) if re_ else PL.to_int(self.U(cx.st, cv, l.ty.n))
                for le in (True, False):
                    add(f"{l.name}{'<=' if le else '>='}all@{self.nm(v)[:40]}", lambda cx, z=z, le=le, cz=cz: True if isinstance(cx.it, int) else quant_it((cz(cx) <= z) if le else (cz(cx) >= z), cx.it))
                for il, d in idxs:
                    def f(cx, l=l, il=il, d=d, z=z, cz=cz, re_=re_):
                        iv = PL.sub(self.U(cx.st, cx.v[il.key], il.ty.n), d)
                        c0 = PL.to_real(l.init) if re_ else PL.to_int(self.U(cx.st, l.init, l.ty.n))
                        i0 = self.U(L.entry, il.init, il.ty.n)
                        zi = PL.to_int(iv) if isinstance(iv, Poly) else z3.IntVal(int(iv))
                        at = z3.substitute(z, (ik, zi))
                        isinit = z3.And(cz(cx) == c0, PL.to_int(self.U(cx.st, cx.v[il.key], il.ty.n)) == PL.to_int(i0))
                        return z3.Or(isinit, z3.And(zi >= 0, zb(self.le(PL.add(iv, 1), cx.it)), cz(cx) == at))
                    add(f"{l.name}==value[{il.name}]", f)
                    def f2(cx, l=l, il=il, d=d, z=z, cz=cz):
                        iv = PL.sub(self.U(cx.st, cx.v[il.key], il.ty.n), d)
                        zi = PL.to_int(iv) if isinstance(iv, Poly) else z3.IntVal(int(iv))
                        return cz(cx) == z3.substitute(z, (ik, zi))
                    add(f"{l.name}==value[{il.name}]always", f2)
    def trivial_range(self, x, ik):
        """range facts and comparisons of the counter alone"""
        return all(c.get_id() == ik.get_id() or c.sort() == z3.IntSort() for c in consts_of(x).values()) and not self.has_sel(x)
    def rangefact(self, x):
        """type-range fact about one value"""
        if not z3.is_app(x) or x.num_args() != 2 or not (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x)): return False
        a, b = x.children()
        if z3.is_int_value(a): a, b = b, a
        if not z3.is_int_value(b): return False
        n = b.as_long()
        return n <= 0 or (n & (n - 1)) == 0 and n >= 256 or ((n + 1) & n) == 0 and n >= 255
    def has_sel(self, x):
        st, seen = [x], set()
        while st:
            y = st.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if z3.is_app(y) and (y.decl().kind() == z3.Z3_OP_SELECT or (y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() > 0)): return True
            st.extend(y.children())
        return False
    def cmp_only(self, g, j): return not self.has_sel(g)
    def find_sel(self, body, ik):
        st, seen = [body], set()
        while st:
            y = st.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SELECT:
                ix = y.children()[1]
                p = PL.from_z3(ix) if ix.sort() == z3.IntSort() else None
                if isinstance(p, Poly):
                    c = p.m.get((ik.get_id(),), 0)
                    if c == 1:
                        rest = PL.sub(p, atom(ik))
                        if not (isinstance(rest, Poly) and any(contains(PL.ATOMS[i], ik) for m in rest.m for i in m)): return rest
            st.extend(y.children())
        return None
    def renorm(self, t):
        """normalise array indices after a substitution (k - r + r -> k)"""
        cache = {}
        def go(x):
            i = x.get_id()
            if i in cache: return cache[i]
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if x.decl().kind() == z3.Z3_OP_SELECT and ch[1].sort() == z3.IntSort():
                    p = PL.from_z3(ch[1]); ix = PL.to_int(p)
                    r = z3.Select(ch[0], ix)
                elif x.sort() == z3.IntSort() and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                    r = PL.to_int(PL.from_z3(x.decl()(*ch)))
                else: r = x.decl()(*ch)
            else: r = x
            self._keep(r); cache[i] = r
            return r
        return go(t)
    # ------------------------------------------------------------ back edge of the real run
    def loop_back(self, st, h, L):
        if self.dry: return
        # the frame and the closed forms hold for this iteration as well: same computation as the last dry run
        cx = self.backctx(L, st)
        for k, l in L.locs.items():
            if l.ty.k == "array": continue
            if l.mode == "same":
                ok = vkey(cx.v[k]) == vkey(L.hvals[k])
                if not ok: raise Unsupported("unchanged location changed")
        fn = L.fn
        for c in L.cands:
            nm = f"invariant-preserved:{short(fn.dname)}#{fn.lorder[h]}:{c.name}"
            g = c.f(cx)
            if g is None or g is True: continue
            if self.prove_q(st, g):
                o = self._ob(st, nm, z3.BoolVal(True), "invariant", True); o.backend = "z3-houdini"; self.obls.append(o)
            else: self.oblige(st, g, nm, "invariant")

class Materialize(Exception):
    def __init__(self, st): self.st = st
