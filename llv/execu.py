"""Symbolic executor: instructions, calls, exceptions, and loop cutting by (inferred and given) inductive invariants."""
import re, itertools, time, struct
from fractions import Fraction
import z3
import ir, poly as PL
from poly import Poly, atom, interval
from ir import IntTy, PTR, size_of, field_off, bits_of
from engine import *
import engine as EN

class Stop(Exception):
    def __init__(self, kind): self.kind = kind
class Redo(Exception):
    """replace the running state by another one"""
    def __init__(self, st): self.st = st

def consts_of(t, _c={}):
    """uninterpreted constants of a z3 term"""
    i = t.get_id()
    if i in _c: return _c[i][1]
    st, seen, r = [t], set(), {}
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r[x.get_id()] = x
        st.extend(x.children())
    _c[i] = (t, r)
    return r
def contains(t, sub):
    st, seen = [t], set(); j = sub.get_id()
    while st:
        x = st.pop()
        if x.get_id() == j: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    return False
NUM = re.compile(r"!(\d+)")
UNO = re.compile(r"^un(\d+)_")
def sym_born(name):
    """(counter of birth, object id) of a generated symbol"""
    a = max([int(x) for x in NUM.findall(name)], default=-1)
    m = UNO.match(name)
    return a, int(m.group(1)) if m else -1

class LoopInfo: pass

class Exec(Engine):
    # ------------------------------------------------------------ driver
    def run(self, fname):
        f = self.m.funcs[fname]; ir.ensure(self.m, f)
        st = State(); st.frames.append(Frame(f))
        self.enter(st)
        self.root = f
        return self.explore([st], None)
    def enter(self, st):
        fr = st.frames[-1]; fr.ip = 0
    stopstack = [None]
    def explore(self, states, stop):
        self.stopstack = self.stopstack + [stop]
        ends = []
        work = list(states)
        try:
            while work:
                st = work.pop()
                try:
                    while True: 
                        try: self.step(st)
                        except Redo as r: st = r.st
                except PathEnd: self.stats["paths"] += 1
                except Stop as e:
                    ends.append((e.kind, st)); self.stats["paths"] += 1
                except Fork as fk:
                    u = self.undecided(st)
                    if u is not None:
                        work.append(self.rollback(st, u)); continue
                    self.npaths += 1
                    if self.npaths > self.o["max_paths"]: raise Unsupported("too many paths")
                    self.check_deadline()
                    for c, f in fk.alts:
                        s2 = st.clone()
                        if c is not None:
                            c = simp_bool(c)
                            if c is False: continue
                            if c is not True:
                                if not self.feasible(s2, c): continue
                                s2.pc.append(zb(c))
                        if f: f(s2)
                        work.append(s2)
        finally:
            self.stopstack = self.stopstack[:-1]
        return ends
    npaths = 0

    # ------------------------------------------------------------ control flow
    def undecided(self, st):
        """outermost loop being probed whose exit was not decided concretely in this visit: (frame index, header)"""
        for d, fr in enumerate(st.frames):
            for h, L in fr.loops.items():
                if L[0] == "probe" and not L[3]: return (d, h)
        return None
    def rollback(self, st, u):
        d, h = u
        L = st.frames[d].loops[h]
        s = L[1].clone()
        if not self.dry: del self.obls[L[4]:]
        return self.cut(s, h)
    def goto(self, st, blk):
        fr = st.frames[-1]; fn = fr.fn
        src = fr.blk
        for h in list(fr.loops):
            if blk not in fn.loops[h]: del fr.loops[h]
        stop = self.stopstack[-1]
        if stop is not None and stop[0] == "loop" and len(st.frames) == stop[1] and blk != stop[2] and blk not in stop[3]:
            fr.blk = blk; raise Stop("exit")
        b = fn.blocks[blk]
        if b.phis:
            vals = []
            for p in b.phis:
                if src not in p.a: raise Unsupported("phi edge")
                vals.append((p.res, self.val(st, p.ty, p.a[src])))
            for r, v in vals: fr.env[r] = v
        fr.prev, fr.blk, fr.ip = src, blk, 0
        if stop is not None and stop[0] == "loop" and len(st.frames) == stop[1] and blk == stop[2]: raise Stop("back")
        if blk in fn.loops:
            L = fr.loops.get(blk)
            if L is None:
                fr.loops[blk] = ("probe", None, 0, False, len(self.obls), None)
                s = st.clone()
                if self.forced_cut(st, blk): raise Redo(self.cut(s, blk))
                fr.loops[blk] = ("probe", s, 0, False, len(self.obls), s)
            elif L[0] == "cut":
                self.loop_back(st, blk, L[1]); raise PathEnd()
            else:
                n = L[2] + 1
                if n > self.o["unroll"]:
                    raise Redo(self.cut((L[5] or st).clone(), blk))
                if not L[3]:   # a whole iteration ran without a decided exit: only possible for exit-free loops
                    raise Redo(self.rollback(st, (len(st.frames) - 1, blk)))
                fr.loops[blk] = ("probe", None, n, False, len(self.obls), L[5])
                s = st.clone()
                fr.loops[blk] = ("probe", s, n, False, len(self.obls), L[5])
    def forced_cut(self, st, h):
        return False
    def exits_of(self, st, succs):
        fr = st.frames[-1]
        return [h for h in fr.loops if any(s not in fr.fn.loops[h] for s in succs)]
    def decide(self, st, succs):
        fr = st.frames[-1]
        for h in self.exits_of(st, succs):
            L = fr.loops[h]
            if L[0] == "probe" and not L[3]: fr.loops[h] = L[:3] + (True,) + L[4:]
    def branch(self, st, ins, c, a, b):
        c = simp_bool(c) if not isinstance(c, Undef) else z3.Bool(f"undef!{fresh_id()}")
        if isinstance(c, int): c = bool(c)
        if not isinstance(c, bool):
            k = ("B", c.get_id())
            if k in st.known: c2 = st.known[k]
            else: c2 = c
        else: c2 = c
        if isinstance(c2, bool):
            if c2 is c or c2 == c if isinstance(c, bool) else False: pass
            if isinstance(c, bool): self.decide(st, (a, b))
            self.goto(st, a if c2 else b); return
        fr = st.frames[-1]
        ex = [h for h in self.exits_of(st, (a, b)) if fr.loops[h][0] == "probe" and not fr.loops[h][3]]
        if ex:
            u = self.undecided(st)
            raise Redo(self.rollback(st, u))
        if a == b: self.goto(st, a); return
        t, f = self.feasible(st, c), self.feasible(st, Not(c))
        if t and f:
            def mk(v):
                def g(s2): s2.known[k] = v; self._keep(c)
                return g
            raise Fork([(c, mk(True)), (Not(c), mk(False))])
        if not t and not f: raise PathEnd()
        st.known[k] = t; self._keep(c)
        self.goto(st, a if t else b)
    def step(self, st):
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.blk]
        ins = b.ins[fr.ip]
        self.stats["instrs"] += 1
        if self.stats["instrs"] & 1023 == 0: self.check_deadline()
        if self.o.get("trace"): print("   " * len(st.frames), ins.line[:150])
        op = ins.op
        if op in ir.BINOPS:
            x, y = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
            fr.env[ins.res] = self.arith(st, op, ins.ty, x, y, ins.a[2])
        elif op == "br":
            if ins.a[0] == "u": self.goto(st, ins.a[1])
            else: self.branch(st, ins, self.val(st, IntTy(1), ins.a[1]), ins.a[2], ins.a[3])
            return
        elif op == "load": fr.env[ins.res] = self.load(st, ins.ty, self.val(st, PTR, ins.a[0]))
        elif op == "store": self.store(st, ins.a[0], self.val(st, ins.a[0], ins.a[1]), self.val(st, PTR, ins.a[2]))
        elif op == "getelementptr":
            fr.env[ins.res] = self.gep(st, ins.a[0], [(t, self.val(st, t, v)) for t, v in ins.a[1]])
        elif op == "icmp":
            x, y = self.val(st, ins.a[1] if False else ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2])
            self.logcmp(st, ins.ty, x, y)
            fr.env[ins.res] = self.icmp(st, ins.a[0], ins.ty, x, y)
        elif op == "fcmp":
            x, y = self.val(st, ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2])
            fr.env[ins.res] = self.fcmp(st, ins.a[0], ins.ty, x, y)
        elif op in ir.CASTS:
            fr.env[ins.res] = self.cast(st, op, ins.a[0], ins.ty, self.val(st, ins.a[0], ins.a[1]))
        elif op == "select":
            c = self.val(st, ins.a[3], ins.a[0]); x, y = self.val(st, ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2])
            fr.env[ins.res] = self.select(st, c, x, y, ins.ty)
        elif op == "alloca":
            n = self.val(st, IntTy(64), ins.a[1])
            if not isinstance(n, int): n = self.conc(st, n, 64, 16, "alloca size")
            t = ins.a[0]
            o = self.new_obj(st, size_of(t) * n, f"{ins.res}", "stack", align=max(ir.align_of(t), 1))
            e = t
            while e.k == "array": e = e.el
            if t.k == "array":
                try: o.tag["elem"] = size_of(e)
                except Exception: pass
            fr.allocas.append(o.id); fr.env[ins.res] = Ptr(o.id, 0)
        elif op in ("call", "invoke"): self.call(st, ins); return
        elif op == "ret": self.ret(st, None if ins.a[0] is None else self.val(st, ins.ty, ins.a[0])); return
        elif op == "switch":
            v = self.val(st, ins.ty, ins.a[0])
            if isinstance(v, PDiff): v = self.unpd(st, v, ins.ty.n)
            v = self.U(st, v, ins.ty.n) if self.mode == "int" else v
            succs = [ins.a[1]] + [x[1] for x in ins.a[2]]
            if isinstance(v, int):
                self.decide(st, succs)
                for cv, bl in ins.a[2]:
                    if cv == v: self.goto(st, bl); return
                self.goto(st, ins.a[1]); return
            key = ("SW", id(ins), v.key() if isinstance(v, Poly) else v.get_id())
            if key in st.known: self.goto(st, st.known[key]); return
            z = self.zi(v, ins.ty.n); alts = []
            ex = [h for h in self.exits_of(st, succs) if fr.loops[h][0] == "probe" and not fr.loops[h][3]]
            if ex: raise Redo(self.rollback(st, self.undecided(st)))
            grp = {}
            for cv, bl in ins.a[2]: grp.setdefault(bl, []).append(cv)
            for bl, cvs in grp.items():
                if bl == ins.a[1]: continue
                def g(s2, bl=bl): s2.known[key] = bl
                alts.append((z3.Or([z == cv for cv in cvs]) if len(cvs) > 1 else z == cvs[0], g))
            rest = [cv for bl, cvs in grp.items() if bl != ins.a[1] for cv in cvs]
            def g(s2): s2.known[key] = ins.a[1]
            alts.append((z3.And([z != cv for cv in rest]) if rest else None, g))
            self._keep(z)
            raise Fork(alts)
        elif op == "unreachable":
            raise PathEnd()
        elif op == "extractvalue":
            v = self.val(st, ins.ty, ins.a[0])
            if isinstance(v, Undef): fr.env[ins.res] = UNDEF
            else:
                for i in ins.a[1]: v = v[i]
                fr.env[ins.res] = v
        elif op == "insertvalue":
            v = self.val(st, ins.ty, ins.a[0]); e = self.val(st, ins.a[1], ins.a[2])
            fr.env[ins.res] = self.insval(ins.ty, v, e, ins.a[3])
        elif op == "extractelement":
            v = self.val(st, ins.ty, ins.a[0]); i = self.val(st, ins.a[1], ins.a[2])
            if isinstance(v, Undef): fr.env[ins.res] = UNDEF
            else: fr.env[ins.res] = v[i if isinstance(i, int) else self.conc(st, i, ins.a[1].n, 64, "lane")]
        elif op == "insertelement":
            v = self.val(st, ins.ty, ins.a[0]); e = self.val(st, ins.ty.el, ins.a[1]); i = self.val(st, ins.a[2], ins.a[3])
            v = [UNDEF] * ins.ty.n if isinstance(v, Undef) else list(v)
            v[i if isinstance(i, int) else self.conc(st, i, ins.a[2].n, 64, "lane")] = e
            fr.env[ins.res] = v
        elif op == "shufflevector":
            a, bb = self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])
            m = self.val(st, ins.a[2], ins.a[3])
            n = ins.ty.n
            if isinstance(m, Undef): m = [UNDEF] * ins.a[2].n
            a = [UNDEF] * n if isinstance(a, Undef) else a; bb = [UNDEF] * n if isinstance(bb, Undef) else bb
            ab = list(a) + list(bb)
            fr.env[ins.res] = [UNDEF if isinstance(k, Undef) else ab[int(k)] for k in m]
        elif op == "freeze": fr.env[ins.res] = self.val(st, ins.ty, ins.a[0])
        elif op == "fneg":
            v = self.val(st, ins.ty, ins.a[0])
            fr.env[ins.res] = [self.fneg(x, ins.ty.el.k) for x in v] if ins.ty.k == "vec" else self.fneg(v, ins.ty.k)
        elif op == "resume":
            self.unwind(st); return
        elif op == "landingpad": self.landingpad(st, ins)
        elif op == "atomicrmw":
            p = self.val(st, PTR, ins.a[1]); v = self.val(st, ins.ty, ins.a[2]); old = self.load(st, ins.ty, p)
            k = ins.a[0]
            self.assumed["atomic operations executed sequentially (single thread)"] = 1
            if k == "xchg": new = v
            elif k in ("add", "sub", "and", "or", "xor"): new = self.binop(st, k, ins.ty.n, old, v, ())
            else: raise Unsupported("atomicrmw " + k)
            self.store(st, ins.ty, new, p); fr.env[ins.res] = old
        elif op == "cmpxchg":
            p, c, n = self.val(st, PTR, ins.a[0]), self.val(st, ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2])
            old = self.load(st, ins.ty, p)
            eq = self.icmp(st, "eq", ins.ty, old, c)
            self.assumed["atomic operations executed sequentially (single thread)"] = 1
            eq = simp_bool(eq)
            if not isinstance(eq, bool):
                kk = ("cx", eq.get_id())
                if kk not in st.known:
                    def mk(v):
                        def g(s2): s2.known[kk] = v
                        return g
                    self._keep(eq); raise Fork([(eq, mk(True)), (Not(eq), mk(False))])
                eq = st.known[kk]
            if eq: self.store(st, ins.ty, n, p)
            fr.env[ins.res] = [old, eq]
        elif op == "fence": pass
        else: raise Unsupported("instruction " + op)
        fr.ip += 1
    def insval(self, ty, v, e, idx):
        n = len(ty.els) if ty.k == "struct" else ty.n
        v = [UNDEF] * n if isinstance(v, Undef) else list(v)
        if len(idx) == 1: v[idx[0]] = e
        else: v[idx[0]] = self.insval(ty.els[idx[0]] if ty.k == "struct" else ty.el, v[idx[0]], e, idx[1:])
        return v
    def arith(self, st, op, ty, x, y, flags):
        if ty.k == "vec":
            if isinstance(x, Undef): x = [UNDEF] * ty.n
            if isinstance(y, Undef): y = [UNDEF] * ty.n
            return [self.arith(st, op, ty.el, a, b, flags) for a, b in zip(x, y)]
        if ty.k == "int": return self.binop(st, op, ty.n, x, y, flags)
        return self.fop(st, op, ty.k, x, y)
    def fneg(self, v, k):
        if isinstance(v, Undef): return v
        if self.fl == "real": return PL.neg(v)
        if self.fl == "fp": return z3.simplify(z3.fpNeg(v)) if z3.is_fp_value(v) else z3.fpNeg(v)
        w = 32 if k == "float" else 64
        if self.mode == "bv":
            b = v.b
            return FBits(b ^ (1 << (w - 1)))
        raise Unsupported("fneg")
    def select(self, st, c, x, y, ty):
        if isinstance(c, list): return [self.select(st, ci, a, b, ty.el) for ci, a, b in zip(c, x, y)]
        if isinstance(c, Undef): return x
        if isinstance(c, int): return x if c else y
        c = simp_bool(c)
        if isinstance(c, bool): return x if c else y
        if ty.k in ("struct", "array"): 
            raise Fork([(c, None), (Not(c), None)])
        k = ("B", c.get_id())
        if k in st.known and isinstance(st.known[k], bool): return x if st.known[k] else y
        if isinstance(x, (Ptr, PDiff)) or isinstance(y, (Ptr, PDiff)) and not (isinstance(x, PDiff) and x.obj is None):
            if self.prove(st, c): return x
            if self.prove(st, Not(c)): return y
            def mk(v):
                def g(s2): s2.known[k] = v; self._keep(c)
                return g
            raise Fork([(c, mk(True)), (Not(c), mk(False))])
        return self.ite(st, c, x, y, ty)

    # ------------------------------------------------------------ calls
    def call(self, st, ins):
        fr = st.frames[-1]
        callee = ins.a[0]
        if callee[0] == "asm":
            if ins.ty.k != "void": raise Unsupported("inline asm with a result")
            import asm
            asm.run(self, st, callee[1], callee[2], [self.val(st, t, v) for t, v, bv in ins.a[1]])
            self.done(st, ins, None); return
        args = []
        for t, v, bv in ins.a[1]:
            args.append(None if t.k == "metadata" else self.val(st, t, v))
        if callee[0] == "glob" and (callee[1] in self.m.funcs or callee[1] in self.m.decls): name = callee[1]
        elif callee[0] == "glob" and callee[1] in self.m.aliases:
            p = self.const(st, PTR, callee); name = p.obj[1]
        else:
            p = self.val(st, PTR, callee)
            p = self.toptr(st, p)
            if isinstance(p.obj, tuple) and p.obj[0] == "fn": name = p.obj[1]
            elif p.obj is None:
                self.oblige(st, False, "memory-safety:call-through-null", "mem"); raise PathEnd()
            else: raise Unsupported(f"indirect call to {p}")
        self.callname(st, ins, name, args)
    def callname(self, st, ins, name, args):
        h = self.libcache.get(name)
        if h is None:
            h = self.find_handler(name); self.libcache[name] = h
        kind, fn, label = h
        if kind == "lib":
            if label: self.used[label] = self.used.get(label, 0) + 1
            pre = st.clone()
            try: r = fn(self, st, ins, name, args)
            except Fork as fk:
                # the library model may have changed the state: redo from before the call
                self.restore(st, pre); raise
            if r is HANDLED: return
            if r is INLINE: self.inline(st, ins, name, args); return
            self.done(st, ins, r); return
        if kind == "body": self.inline(st, ins, name, args); return
        raise Unsupported("no contract for external function " + self.dem.get(name, name))
    def restore(self, st, pre):
        for a in pre.__dict__: setattr(st, a, getattr(pre, a))
    def inline(self, st, ins, name, args):
        f = ir.ensure(self.m, self.m.funcs[name])
        f.dname = self.dem.get(name, name)
        self.used.setdefault(f.dname, 0); self.used[f.dname] += 1
        if len(st.frames) > self.o.get("depth", 60): raise Unsupported("recursion depth")
        g = Frame(f); g.call = ins
        for (t, nm, bv), v, ca in zip(f.params, args, ins.a[1]):
            if ca[2] is not None:    # byval: copy
                o = self.new_obj(st, size_of(ca[2]), "byval", "stack"); g.allocas.append(o.id)
                self.memcpy(st, Ptr(o.id, 0), v, size_of(ca[2])); v = Ptr(o.id, 0)
            g.env[nm] = v
        st.frames.append(g)
    def done(self, st, ins, r):
        fr = st.frames[-1]
        if ins.res is not None: fr.env[ins.res] = r
        if ins.op == "invoke": self.goto(st, ins.a[2])
        else: fr.ip += 1
    def ret(self, st, v):
        stop = self.stopstack[-1]
        if stop is not None and stop[0] == "loop" and len(st.frames) == stop[1]: raise Stop("exit")
        fr = st.frames.pop()
        for a in fr.allocas: st.mem.pop(a, None)
        if fr.vcb is not None:
            st.ret = v; fr.vcb(st, v)
        if stop is not None and stop[0] == "ret" and len(st.frames) == stop[1]:
            st.ret = v; raise Stop("ret")
        if not st.frames: st.ended = "return"; raise PathEnd()
        ins = fr.call
        self.done(st, ins, v)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, ti, obj=None):
        """ti: mangled typeinfo name"""
        st.exc = (ti, obj)
        self.unwind(st)
    def unwind(self, st):
        """the current top frame's current instruction raised st.exc"""
        ti, obj = st.exc
        stop = self.stopstack[-1]
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].ins[fr.ip]
            if ins.op == "invoke":
                lp = fr.fn.blocks[ins.a[3]].ins[0]
                if lp.op == "landingpad" and (lp.a[0] or self.match(lp, ti)[0] is not None):
                    self.goto(st, ins.a[3]); return
            if stop is not None and stop[0] == "loop" and len(st.frames) == stop[1]: raise Stop("exit")
            st.frames.pop()
            for a in fr.allocas: st.mem.pop(a, None)
            if stop is not None and stop[0] == "ret" and len(st.frames) == stop[1]: raise Stop("throw")
        st.ended = "throw"
        if self.o.get("no_throw", True) and not self.dry:
            self.oblige(st, False, "no-uncaught-exception:" + ti, "mem")
        raise PathEnd()
    def bases(self, ti):
        """typeinfo -> all base typeinfos, itself included"""
        if ti in EXH: r = [ti] + self.bases(EXH[ti]) if EXH[ti] else [ti]
        else:
            r = [ti]
            g = self.m.globals.get(ti)
            if g and g[1]:
                def walk(v):
                    if isinstance(v, tuple):
                        if v and v[0] == "glob" and v[1].startswith("_ZTI"): r.extend(self.bases(v[1]))
                        else:
                            for x in v: walk(x)
                    elif isinstance(v, list):
                        for x in v: walk(x)
                walk(g[1])
        return r
    def tid(self, ti):
        if ti not in self.tids: self.tids[ti] = len(self.tids) + 1
        return self.tids[ti]
    def match(self, lp, ti):
        bs = self.bases(ti)
        for k, v in lp.a[1]:
            if k == "catch":
                if v[0] == "null": return ("*", 0)
                if v[0] == "glob" and v[1] in bs: return (v[1], self.tid(v[1]))
            if k == "filter": return ("filter", -1)
        return (None, 0)
    def landingpad(self, st, ins):
        ti, obj = st.exc
        m, sel = self.match(ins, ti)
        if m == "*": sel = 9999
        if obj is None:
            o = self.new_obj(st, 64, "exc", "heap"); o.tag["exc"] = ti; obj = Ptr(o.id, 0); st.exc = (ti, obj)
        st.frames[-1].env[ins.res] = [obj, sel if m is not None else 0]

    # ------------------------------------------------------------ comparisons log (bounds for loop invariants)
    cmplogs = []
    def logcmp(self, st, ty, x, y):
        if not self.cmplogs: return
        if isinstance(x, (Ptr, PDiff)) and isinstance(y, (Ptr, PDiff)):
            if x.obj == y.obj and x.obj is not None:
                for l in self.cmplogs: l.append(("p", x.obj, x.off, y.off))
            return
        if isinstance(x, (Poly, int)) and isinstance(y, (Poly, int)) and not isinstance(x, bool):
            for l in self.cmplogs: l.append(("i", None, x, y))
        elif self.mode == "bv" and (z3.is_expr(x) or z3.is_expr(y)) and ty.k == "int":
            for l in self.cmplogs: l.append(("b", ty.n, x, y))

class _H: pass
HANDLED, INLINE = _H(), _H()
EXH = {"_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
       "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
       "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt15underflow_error": "_ZTISt13runtime_error",
       "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt9exception": None,
       "_ZTISt18bad_variant_access": "_ZTISt9exception", "_ZTISt19bad_optional_access": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
       "_ZTISt12system_error": "_ZTISt13runtime_error", "_ZTINSt7__cxx1114ios_base7failureB5cxx11E": "_ZTISt12system_error",
       "_ZTISt16bad_function_call": "_ZTISt9exception", "_ZTINSt10filesystem7__cxx1116filesystem_errorE": "_ZTISt12system_error"}
