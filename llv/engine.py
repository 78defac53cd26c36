"""Verification-condition generator over LLVM IR: symbolic execution with contracts, loop invariants and a layered memory model."""
import sys, time, itertools, math, re, struct
from fractions import Fraction
import z3
import ir
from ir import size_of, field_off, align_of, bits_of, IntTy, PTR
import poly as PL
from poly import Poly, atom, interval

sys.setrecursionlimit(100000)

class Unsupported(Exception): pass      # the construct is outside the verifier's reach (tool limit, never a violation)
class Fork(Exception):
    def __init__(self, alts): self.alts = alts      # list of (z3 cond or None, fn(state) or None)
class PathEnd(Exception): pass

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __repr__(self): return f"Ptr({self.obj},{self.off})"
NULL = Ptr(None, 0)

class PDiff:
    """ptrtoint value: object + offset, or difference of two pointers into one object (obj None)."""
    __slots__ = ("obj", "off", "w")
    def __init__(self, obj, off, w=64): self.obj, self.off, self.w = obj, off, w

FIELDS = {}

class Cat:
    """integer assembled from bytes of other values (field-by-field register copies of structs)"""
    __slots__ = ("bs",)
    def __init__(self, bs): self.bs = bs

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

_ctr = itertools.count()
def fresh_id(): return next(_ctr)

# ------------------------------------------------------------------ memory objects
class Obj:
    __slots__ = ("id", "size", "stride", "cells", "top", "dflt", "name", "alive", "const", "kind", "tag", "table")
    def __init__(self, id, size, name, kind, dflt=("uninit",), stride=None):
        self.id, self.size, self.name, self.kind = id, size, name, kind
        self.stride, self.cells, self.top, self.dflt = stride, {}, None, dflt
        self.alive, self.const, self.tag, self.table = True, False, None, None
    def clone(self):
        o = Obj.__new__(Obj)
        o.id, o.size, o.stride, o.cells, o.top, o.dflt, o.name = self.id, self.size, self.stride, dict(self.cells), self.top, self.dflt, self.name
        o.alive, o.const, o.kind, o.tag, o.table = self.alive, self.const, self.kind, self.tag, self.table
        return o

class Layer:
    __slots__ = ("k", "a", "below")
    def __init__(self, k, a, below): self.k, self.a, self.below = k, a, below

class Frame:
    __slots__ = ("fn", "env", "blk", "prev", "ip", "call", "loops", "allocas", "visits", "vcb")
    def __init__(self, fn):
        self.fn, self.env, self.blk, self.prev, self.ip, self.call, self.loops, self.visits, self.vcb = fn, {}, fn.order[0], None, 0, None, {}, {}, None
        self.allocas = []
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.env, f.blk, f.prev, f.ip, f.call, f.vcb = self.fn, dict(self.env), self.blk, self.prev, self.ip, self.call, self.vcb
        f.loops, f.allocas, f.visits = dict(self.loops), list(self.allocas), dict(self.visits)
        return f

class State:
    def __init__(self):
        self.frames, self.mem, self.pc, self.known, self.ranges = [], {}, [], {}, set()
        self.ghost, self.inputs, self.trace = {}, [], []
        self.exc, self.ended, self.shared = None, None, set()
        self.wlog = None; self.stop = None; self.ret = None; self.aux = {}
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.shared = set(self.mem); self.shared = set(self.mem)
        s.pc = list(self.pc); s.known = dict(self.known); s.ranges = set(self.ranges)
        s.ghost = dict(self.ghost); s.inputs = list(self.inputs); s.trace = list(self.trace)
        s.exc, s.ended, s.wlog, s.stop, s.ret = self.exc, self.ended, self.wlog, self.stop, self.ret
        s.aux = dict(self.aux)
        return s
    def wobj(self, id):
        o = self.mem[id]
        if id in self.shared:
            o = o.clone(); self.mem[id] = o; self.shared.discard(id)
        return o

class Obligation:
    __slots__ = ("slot", "name", "hyps", "goal", "fn", "inputs", "trace", "status", "backend", "time", "model", "kind", "reason")
    def __init__(self, name, hyps, goal, fn, inputs, trace, kind="check"):
        self.name, self.hyps, self.goal, self.fn, self.inputs, self.trace, self.kind = name, hyps, goal, fn, inputs, trace, kind
        self.status = self.backend = self.model = self.reason = None; self.time = 0.0

def has_quant(t, _c={}):
    i = t.get_id()
    if i in _c: return _c[i][1]
    st, seen, r = [t], set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        st.extend(x.children())
    _c[i] = (t, r)
    return r

def _scan_real(t):
    """(has real-sorted term, number of non-linear real products)"""
    i = t.get_id()
    r = _SR.get(i)
    if r is not None: return r[1]
    st, seen, real, nl = [t], set(), False, 0
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.sort_kind() == z3.Z3_REAL_SORT:
                real = True
                if x.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1: nl += 1
            st.extend(x.children())
    _SR[i] = (t, (real, nl)); return real, nl
_SR = {}
def has_real(t): return _scan_real(t)[0]
def heavy_real(t): return _scan_real(t)[1] > 2
_RA = {}
ARRNAME = re.compile(r"_e\d+_(\d+)i$")
def _qarrays(t):
    """constant integer arrays selected under a quantifier of t"""
    i = t.get_id()
    if i in _RA: return _RA[i][1]
    out = {}
    st, seen = [(t, False)], set()
    while st:
        x, q = st.pop()
        if (x.get_id(), q) in seen: continue
        seen.add((x.get_id(), q))
        if z3.is_quantifier(x): st.append((x.body(), True)); continue
        if not z3.is_app(x): continue
        if q and x.num_args() == 0 and z3.is_array(x) and x.sort().range() == z3.IntSort():
            m = ARRNAME.search(x.decl().name())
            if m and x.sort().domain() == z3.IntSort(): out[x.get_id()] = (x, int(m.group(1)))
        elif q and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("uf_") and x.sort() == z3.IntSort(): out[("uf", x.decl().name(), x.num_args())] = (x.decl(), 8)
        st.extend((c, q) for c in x.children())
    _RA[i] = (t, out)
    return out
_RAX = {}
def range_axioms(fs):
    """machine-integer ranges of the array cells mentioned under quantifiers"""
    arrs = {}
    for f in fs:
        if has_quant(f): arrs.update(_qarrays(f))
    out = []
    for i, (a, sz) in arrs.items():
        if i not in _RAX:
            if isinstance(i, tuple):
                ks = [z3.Int(f"k!rng{j}") for j in range(a.arity())]
                _RAX[i] = (a, z3.ForAll(ks, z3.And(a(*ks) >= 0, a(*ks) < (1 << (8 * sz))), patterns=[a(*ks)])); out.append(_RAX[i][1]); continue
            k = z3.Int("k!rng")
            _RAX[i] = (a, z3.ForAll([k], z3.And(a[k] >= 0, a[k] < (1 << (8 * sz))), patterns=[a[k]]))
        out.append(_RAX[i][1])
    return out

def simp_bool(b):
    if isinstance(b, bool): return b
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    return b
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def Not(b):
    if isinstance(b, bool): return not b
    if z3.is_not(b): return b.children()[0]
    return z3.Not(b)
def And(*bs):
    r = []
    for b in bs:
        if b is True: continue
        if b is False: return False
        r.append(b)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*bs):
    r = []
    for b in bs:
        if b is False: continue
        if b is True: return True
        r.append(b)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def Implies(a, b):
    if a is True: return b
    if a is False: return True
    if b is True: return True
    if b is False: return Not(a)
    return z3.Implies(a, b)

class Engine:
    def __init__(self, mod, mode="int", fl="real", dem=None, loopspecs=None, contracts=None, libs=None, opts=None):
        self.m, self.mode, self.fl = mod, mode, fl
        self.dem = dem or {}
        self.loopspecs = loopspecs or []
        self.contracts = contracts or []
        self.libs = libs
        self.o = dict(unroll=300, mem_check=True, max_paths=4000, feas_ms=1500, deadline=None, strict_nsw=False, alias_query=True)
        self.o.update(opts or {})
        self.obls = []
        self.nobj = itertools.count(1)
        self.globobj = {}
        self.proto = State()
        self.used = {}          # function -> how it was handled
        self.assumed = {}       # trusted contract -> count
        self.covers = {}
        self.stats = dict(paths=0, queries=0, qtime=0.0, instrs=0, loops_cut=0)
        self.dry = 0
        self.slv = z3.Solver()
        self.tids = {}
        self.libcache = {}
        self.loopnotes = []
        self.fresh_syms = []
        self.alloc_mark = 0

    # ---------------------------------------------------------------- fresh symbols
    def fresh_int(self, w, name="v"):
        n = f"{name}!{fresh_id()}"
        if w == 1: return z3.Bool(n)
        if self.mode == "int":
            t = z3.Int(n)
            return atom(t, (0, (1 << w) - 1))
        return z3.BitVec(n, w)
    def range_fact(self, st, v, w):
        if self.mode == "int" and isinstance(v, Poly):
            z = PL.to_int(v); st.pc.append(z3.And(z >= 0, z < (1 << w)))
    def new_int(self, st, w, name="v"):
        v = self.fresh_int(w, name)
        if w != 1: self.range_fact(st, v, w)
        return v
    def fresh_float(self, k, name="f"):
        n = f"{name}!{fresh_id()}"
        if self.fl == "real": return atom(z3.Real(n))
        if self.fl == "fp": return z3.FP(n, z3.Float32() if k == "float" else z3.Float64())
        return FBits(self.fresh_int(32 if k == "float" else 64, name))
    def fresh_of(self, st, ty, name="h"):
        if ty.k == "int": return self.new_int(st, ty.n, name)
        if ty.k in ("float", "double"): return self.fresh_fl(st, ty.k, name)
        if ty.k == "vec": return [self.fresh_of(st, ty.el, name) for _ in range(ty.n)]
        if ty.k == "struct": return [self.fresh_of(st, e, name) for e in ty.els]
        raise Unsupported(f"fresh value of type {ty}")
    def fresh_fl(self, st, k, name="f"):
        v = self.fresh_float(k, name)
        if self.fl == "bits": self.range_fact(st, v.b, 32 if k == "float" else 64)
        return v

    # ---------------------------------------------------------------- solver queries
    def feasible(self, st, extra=None, full=False):
        s = z3.Solver(); s.set("timeout", self.o["feas_ms"])
        extra = None if extra is None else zb(extra)
        skip = not full and self.fl == "real" and (extra is None or not has_real(extra))
        for c in st.pc:
            if full or not has_quant(c):
                if skip and heavy_real(c): continue
                s.add(c)
        if extra is not None: s.add(extra)
        t = time.time(); r = s.check(); self.stats["queries"] += 1; self.stats["qtime"] += time.time() - t
        return r != z3.unsat
    def prove(self, st, g):
        g = simp_bool(g)
        if isinstance(g, bool): return g
        key = ("p", g.get_id())
        if key in st.ranges: return True
        if (key, len(st.pc)) in st.ranges: return False
        r = not self.feasible(st, Not(g))
        if r: st.ranges.add(key); self._keep(g)
        else: st.ranges.add((key, len(st.pc)))
        return r
    _kept = []
    def _keep(self, g): Engine._kept.append(g)
    def assume(self, st, c):
        c = simp_bool(c)
        if c is True: return
        if c is False: raise PathEnd()
        st.pc.append(c)
    def check_deadline(self):
        if self.o["deadline"] and time.time() > self.o["deadline"]: raise Unsupported("time limit of the generator")

    def oblige(self, st, goal, name, kind="check"):
        goal = simp_bool(goal)
        if goal is True:
            self.obls.append(self._ob(st, name, z3.BoolVal(True), kind, True)) if not self.dry else None
            return
        if not self.dry:
            self.obls.append(self._ob(st, name, zb(goal), kind, False))
        elif self.dry_sink is not None:
            self.dry_sink.append(self._ob(st, name, zb(goal), kind, False))
        if goal is False: raise PathEnd()
        st.pc.append(goal)
    dry_sink = None
    def _ob(self, st, name, goal, kind, trivial):
        fn = st.frames[-1].fn.dname if st.frames else "?"
        o = Obligation(name, [] if trivial else list(st.pc), goal, fn, list(st.inputs), list(st.trace), kind)
        if trivial: o.status, o.backend = "proved", "syntactic"
        return o
    def oblige_cond(self, st, cond, name, kind="mem"):
        """safety side condition: cheap proof first, otherwise an obligation"""
        cond = simp_bool(cond)
        if cond is True or self.prove(st, cond):
            if not self.dry: 
                o = self._ob(st, name, z3.BoolVal(True), kind, True); o.backend = "z3-path"; self.obls.append(o)
            return
        self.oblige(st, cond, name, kind)

    # ---------------------------------------------------------------- integers
    def U(self, st, x, w):
        """canonical unsigned representative"""
        if isinstance(x, Cat): x = self.decat(st, x)
        if self.mode == "bv":
            return x
        if not isinstance(x, Poly): return x % (1 << w)
        lo, hi = interval(x)
        M = 1 << w
        if lo is not None and lo >= 0 and hi < M: return x
        k = ("U", w, x.key())
        if k in st.known: return st.known[k]
        z = PL.to_int(x)
        if self.prove(st, z3.And(z >= 0, z < M)): r = x
        elif self.prove(st, z3.And(z >= M, z < 2 * M)): r = PL.sub(x, M)
        elif self.prove(st, z3.And(z >= -M, z < 0)): r = PL.add(x, M)
        else:
            t = z % M
            r = atom(t, (0, M - 1)); self._keep(t)
        st.known[k] = r
        return r
    def S(self, st, x, w):
        if self.mode == "bv": return x
        H = 1 << (w - 1); M = 1 << w
        if not isinstance(x, Poly): return (x + H) % M - H
        lo, hi = interval(x)
        if lo is not None and lo >= -H and hi < H: return x
        k = ("S", w, x.key())
        if k in st.known: return st.known[k]
        z = PL.to_int(x)
        if self.prove(st, z3.And(z >= -H, z < H)): r = x
        elif self.prove(st, z3.And(z >= H, z < M)): r = PL.sub(x, M)
        else:
            t = (z + H) % M - H
            r = atom(t, (-H, H - 1)); self._keep(t)
        st.known[k] = r
        return r
    def zi(self, x, w=64):
        """value -> z3 term"""
        if isinstance(x, bool): return z3.BoolVal(x)
        if isinstance(x, z3.BoolRef): return x
        if self.mode == "int": return PL.to_int(x)
        return z3.BitVecVal(x, w) if isinstance(x, int) else x
    def bvn(self, x, w):
        if z3.is_bv_value(x): return x.as_long()
        return x
    def boolint(self, b, w):
        if isinstance(b, bool): return int(b)
        if self.mode == "int":
            t = z3.If(b, z3.IntVal(1), z3.IntVal(0)); PL.BOOLI[t.get_id()] = b
            return atom(t, (0, 1))
        t = z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)); PL.BOOLI[t.get_id()] = b; self._keep(t)
        return t
    def as_bool(self, x):
        """recover b from If(b,1,0)"""
        if isinstance(x, Poly):
            if len(x.m) == 1:
                (k, v), = x.m.items()
                if v == 1 and len(k) == 1: return PL.BOOLI.get(k[0])
            return None
        if z3.is_expr(x) and not z3.is_bool(x): return PL.BOOLI.get(x.get_id())
        return None

    def conc(self, st, x, w, lim=64, what=""):
        """small-domain value -> python int by case split"""
        x = self.U(st, x, w)
        if isinstance(x, int): return x
        k = ("C", x.key() if isinstance(x, Poly) else x.get_id())
        if k in st.known: return st.known[k]
        z = self.zi(x, w)
        s = z3.Solver(); s.set("timeout", 3000)
        for c in st.pc:
            if not has_quant(c): s.add(c)
        vals = []
        while len(vals) <= lim:
            r = s.check()
            if r == z3.unsat: break
            if r != z3.sat: raise Unsupported("cannot enumerate values of " + what)
            v = s.model().eval(z, model_completion=True).as_long(); vals.append(v); s.add(z != v)
        else: raise Unsupported("too many values for a case split: " + what)
        if not vals: raise PathEnd()
        alts = []
        for v in sorted(vals):
            def f(s2, v=v): s2.known[k] = v
            alts.append((z == v, f))
        if isinstance(x, Poly): self._keep(z)
        raise Fork(alts)

    def binop(self, st, op, w, a, b, flags):
        if isinstance(a, Undef): a = self.new_int(st, w, "undef")
        if isinstance(b, Undef): b = self.new_int(st, w, "undef")
        if w == 1: return self.boolop(op, a, b)
        if isinstance(a, Cat):
            if op == "lshr" and isinstance(b, int) and b % 8 == 0: return self.from_bytes(st, a.bs[b // 8:] + [0] * (b // 8), IntTy(w))
            if op == "and" and isinstance(b, int) and b in (0xff, 0xffff, 0xffffffff): n = b.bit_length() // 8; return self.from_bytes(st, a.bs[:n] + [0] * (len(a.bs) - n), IntTy(w))
            a = self.decat(st, a)
        if isinstance(b, Cat): b = self.decat(st, b)
        if isinstance(a, PDiff) or isinstance(b, PDiff): 
            r = self.pdop(st, op, w, a, b)
            if r is not None: return r
            a, b = self.unpd(st, a, w), self.unpd(st, b, w)
        return self.binop_i(st, op, w, a, b, flags) if self.mode == "int" else self.binop_b(st, op, w, a, b)
    def boolop(self, op, a, b):
        if op == "xor" or op == "add" or op == "sub":
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int): return Not(a) if b else (bool(a) if isinstance(a, int) else a)
            return z3.Xor(a, b)
        bb = lambda v: bool(v) if isinstance(v, int) else v
        if op == "and" or op == "mul": return And(bb(a), bb(b))
        if op == "or": return Or(bb(a), bb(b))
        raise Unsupported("i1 " + op)
    def decat(self, st, v):
        return self.from_bytes(st, [self.byte_val(st, b) for b in v.bs], IntTy(8 * len(v.bs)))
    def unpd(self, st, a, w):
        if isinstance(a, Cat): return self.decat(st, a)
        if not isinstance(a, PDiff): return a
        if a.obj is None:
            return a.off if self.mode == "int" else (a.off & ((1<<w)-1) if isinstance(a.off, int) else PL.to_bv(a.off))
        # absolute address: symbolic base per object
        base = self.addr_of(st, a.obj)
        if self.mode == "int": return PL.add(base, a.off)
        return base + (PL.to_bv(a.off) if isinstance(a.off, Poly) else z3.BitVecVal(a.off & (2**64-1), 64))
    def addr_of(self, st, obj):
        k = ("addr", obj)
        if k not in st.aux:
            o = st.mem[obj]
            v = self.fresh_int(64, f"addr_{obj}"); st.aux[k] = v
            z = self.zi(v)
            al = o.tag.get("align", 16) if isinstance(o.tag, dict) else 16
            if self.mode == "int":
                q = z3.Int(f"addrq!{fresh_id()}"); st.pc.append(z3.And(z > 4096, z < (1 << 47), z == q * al))
            else: st.pc.append(z3.And(z3.UGT(z, 4096), z3.ULT(z, 1 << 47), z3.URem(z, z3.BitVecVal(al, 64)) == 0))
            # objects that exist at the same time do not overlap
            if o.size is not None and o.alive:
                num = lambda x: PL.to_int(x) if self.mode == "int" else self.zoff(x) if isinstance(x, Poly) else z3.BitVecVal(x, 64)
                le = (lambda x, y: x <= y) if self.mode == "int" else z3.ULE
                for k2 in [x for x in st.aux if isinstance(x, tuple) and len(x) == 2 and x[0] == "addr" and x[1] != obj]:
                    o2 = st.mem.get(k2[1])
                    if o2 is None or not o2.alive or o2.size is None: continue
                    z2 = self.zi(st.aux[k2])
                    st.pc.append(z3.Or(le(z + num(o.size), z2), le(z2 + num(o2.size), z)))
        return st.aux[k]
    def pdop(self, st, op, w, a, b):
        if op == "sub" and isinstance(a, PDiff) and isinstance(b, PDiff) and a.obj == b.obj: return PDiff(None, PL.sub(a.off, b.off))
        if isinstance(a, PDiff) and not isinstance(b, PDiff):
            if a.obj is None and isinstance(b, int):
                if op in ("sdiv", "udiv") and b and PL.divisible(a.off, b): 
                    return self.pd_val(PL.exact_div(a.off, b))
                if op in ("ashr", "lshr") and PL.divisible(a.off, 1 << b): return self.pd_val(PL.exact_div(a.off, 1 << b))
            if a.obj is not None and op in ("add", "sub") and self.mode == "int":
                return PDiff(a.obj, PL.add(a.off, b) if op == "add" else PL.sub(a.off, b))
            if a.obj is not None and op in ("add", "sub") and isinstance(b, int):
                sb = b - (1 << 64) if b >= 1 << 63 else b
                return PDiff(a.obj, a.off + sb if op == "add" else PL.sub(a.off, sb)) if not isinstance(a.off, Poly) else PDiff(a.obj, PL.add(a.off, sb if op == "add" else -sb))
            if a.obj is not None and op == "and" and isinstance(b, int) and b < 64 and not isinstance(a.off, Poly):
                o = st.mem[a.obj]; al = o.tag.get("align", 16) if isinstance(o.tag, dict) else 16
                if b < al: return a.off & b
        if isinstance(b, PDiff) and b.obj is not None and op == "add" and not isinstance(a, PDiff): return self.pdop(st, op, w, b, a)
        return None
    def pd_val(self, off):
        if self.mode == "int": return off
        if not isinstance(off, Poly): return off & (2**64 - 1)
        return PL.to_bv(off)

    def binop_i(self, st, op, w, a, b, flags):
        M = 1 << w
        if op == "add": return self.wrapc(PL.add(a, b), w)
        if op == "sub": return self.wrapc(PL.sub(a, b), w)
        if op == "mul": 
            r = PL.mul(a, b)
            if isinstance(r, Poly): self.note_mono(r)
            return self.wrapc(r, w)
        if op == "shl":
            b = self.conc(st, b, w, 64, "shift amount")
            return self.wrapc(PL.scale(a, 1 << b), w) if b < w else 0
        if op in ("lshr", "udiv", "urem"):
            if op == "lshr": b = 1 << self.conc(st, b, w, 64, "shift amount"); op = "udiv"
            ua, ub = self.U(st, a, w), self.U(st, b, w)
            if isinstance(ub, int) and ub == 0 or (not isinstance(ub, int)):
                self.oblige_cond(st, PL.to_int(ub) != 0, "division-by-zero", "mem")
            return self.divmod_i(st, op == "udiv", ua, ub, w)
        if op in ("ashr", "sdiv", "srem"):
            if op == "ashr":
                b = 1 << self.conc(st, b, w, 64, "shift amount")
                return self.divmod_i(st, True, self.S(st, a, w), b, w)
            sa, sb = self.S(st, a, w), self.S(st, b, w)
            if isinstance(sa, int) and isinstance(sb, int) and sb:
                q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
                return q % M if op == "sdiv" else (sa - q * sb) % M
            if isinstance(sb, int) and sb > 0:
                za = PL.to_int(sa)
                if self.prove(st, za >= 0): return self.divmod_i(st, op == "sdiv", sa, sb, w)
                # truncation toward zero
                q = z3.If(za >= 0, za / sb, -((-za) / sb))
                if op == "sdiv": return atom(q)
                return PL.sub(sa, PL.scale(atom(q), sb))
            if not isinstance(sb, int):
                za, zbb = PL.to_int(sa), PL.to_int(sb)
                if self.prove(st, z3.And(za >= 0, zbb > 0)): return self.divmod_i(st, op == "sdiv", sa, sb, w)
            raise Unsupported("signed division by a symbolic value")
        if op in ("and", "or", "xor"): return self.bitop_i(st, op, w, a, b)
        raise Unsupported(op)
    def note_mono(self, p): pass
    def wrapc(self, x, w): return x % (1 << w) if isinstance(x, int) else x
    def divmod_i(self, st, isdiv, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a // b if isdiv else a % b
        if isinstance(b, int):
            if b == 1: return a if isdiv else 0
            if isinstance(a, Poly):
                # split off the part divisible by b: (b*p + r) div b = p + r div b
                d = {k: v for k, v in a.m.items() if v % b == 0}
                r = PL.norm({k: v for k, v in a.m.items() if v % b})
                if not isinstance(r, Poly) and 0 <= r < b:
                    return PL.exact_div(PL.norm(d), b) if isdiv else r
                if d:
                    lo, hi = interval(r) if isinstance(r, Poly) else (r, r)
                    okr = lo is not None and lo >= 0 and hi < b
                    if not okr and isinstance(r, Poly): okr = self.prove(st, z3.And(PL.to_int(r) >= 0, PL.to_int(r) < b))
                    if okr: return PL.exact_div(PL.norm(d), b) if isdiv else r
                    if lo is not None and lo >= 0 and isinstance(r, Poly):
                        q = self.divmod_i(st, isdiv, r, b, w)
                        return PL.add(PL.exact_div(PL.norm(d), b), q) if isdiv else q
            lo, hi = interval(a)
            if lo is not None and lo >= 0 and hi < b: return 0 if isdiv else a
            za = PL.to_int(a)
            t = za / b; self._keep(t)
            q = atom(t, (lo // b, hi // b) if lo is not None else None)
            if isdiv: return q
            if (b & (b - 1)) == 0 or True:
                t2 = za % b; self._keep(t2); return atom(t2, (0, b - 1))
        # symbolic divisor: q, r with a = q*b + r, 0 <= r < b (b > 0 on this path)
        k = ("dm", a.key() if isinstance(a, Poly) else a, b.key())
        if k not in st.known:
            q, r = self.fresh_int(w, "q"), self.fresh_int(w, "r")
            zq, zr = PL.to_int(q), PL.to_int(r)
            st.pc.append(z3.And(zq >= 0, zr >= 0, zr < PL.to_int(b), PL.to_int(a) == PL.to_int(PL.add(PL.mul(q, b), r)), zq <= PL.to_int(a)))
            st.known[k] = (q, r)
        return st.known[k][0 if isdiv else 1]
    def bitop_i(self, st, op, w, a, b):
        M = 1 << w
        if isinstance(a, int): a, b = b, a
        if isinstance(a, int): 
            a %= M; b %= M
            return a & b if op == "and" else a | b if op == "or" else a ^ b
        if isinstance(b, int):
            b %= M
            if op == "and":
                if b == 0: return 0
                if b == M - 1: return a
                if b & (b + 1) == 0:            # low mask
                    return self.divmod_i(st, False, self.U(st, a, w), b + 1, w) if not self._modlow(a, b + 1) else self._modlow(a, b + 1)[0]
                nb = M - 1 - b
                if nb & (nb + 1) == 0:          # high mask
                    return PL.sub(a, self.divmod_i(st, False, self.U(st, a, w), nb + 1, w))
                if b & (b - 1) == 0:            # single bit
                    k = b.bit_length() - 1
                    q = self.divmod_i(st, True, self.U(st, a, w), b, w)
                    return PL.scale(self.divmod_i(st, False, q, 2, w), b)
                # contiguous mask
                lowz = (b & -b).bit_length() - 1
                if ((b >> lowz) & ((b >> lowz) + 1)) == 0:
                    q = self.divmod_i(st, True, self.U(st, a, w), 1 << lowz, w)
                    return PL.scale(self.divmod_i(st, False, q, (b >> lowz) + 1, w), 1 << lowz)
            if op in ("or", "xor") and b == 0: return a
            if op == "xor" and b == M - 1: return PL.sub(M - 1, a)
            if op == "or" and b & (b - 1) == 0:  # set one bit
                ua = self.U(st, a, w); k = b
                q = self.divmod_i(st, True, ua, b, w); bit = self.divmod_i(st, False, q, 2, w)
                return PL.add(ua, PL.scale(PL.sub(1, bit), b))
        if op in ("or", "xor", "and"):
            # disjoint operands
            ua, ub = self.U(st, a, w), (self.U(st, b, w) if not isinstance(b, int) else b)
            for x, y in ((ua, ub), (ub, ua)):
                lo, hi = interval(y)
                if lo is None or lo < 0: continue
                k = hi.bit_length()
                if PL.divisible(x, 1 << k): return PL.add(x, y) if op != "and" else 0
            for x, y in ((ua, ub), (ub, ua)):
                if isinstance(y, int): continue
                k = 0
                while k < w and PL.divisible(x, 2 << k): k += 1
                if k and (not isinstance(x, int) or x) and self.prove(st, zb(self.le(y, (1 << k) - 1))): return PL.add(x, y) if op != "and" else 0
            ba, bb = self.as_bool(ua), self.as_bool(ub)
            if ba is not None and bb is not None:
                r = And(ba, bb) if op == "and" else Or(ba, bb) if op == "or" else z3.Xor(ba, bb)
                return self.boolint(r, w)
        f = z3.Function(f"bit{op}{w}", z3.IntSort(), z3.IntSort(), z3.IntSort())
        za, zbv = self.zi(self.U(st, a, w)), self.zi(self.U(st, b, w))
        t = f(za, zbv); self._keep(t)
        st.pc.append(z3.And(t >= 0, t < M))
        if op == "and": st.pc.append(z3.And(t <= za, t <= zbv))
        if op == "or": st.pc.append(z3.And(t >= za, t >= zbv, t <= za + zbv))
        return atom(t, (0, M - 1))
    def _modlow(self, a, m):
        """a mod m when every non-constant coefficient is a multiple of m"""
        if isinstance(a, Poly) and all(v % m == 0 for k, v in a.m.items() if k != ()):
            return (a.m.get((), 0) % m,)
        return None

    def binop_b(self, st, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            M = 1 << w; sa = a - M if a >> (w - 1) else a; sb = b - M if b >> (w - 1) else b
            if op == "add": return (a + b) % M
            if op == "sub": return (a - b) % M
            if op == "mul": return (a * b) % M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) % M if b < w else 0
            if op == "lshr": return a >> b if b < w else 0
            if op == "ashr": return (sa >> min(b, w)) % M
            if op == "udiv" and b: return a // b
            if op == "urem" and b: return a % b
            if op in ("sdiv", "srem") and b:
                q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
                return q % M if op == "sdiv" else (sa - q * sb) % M
        A = z3.BitVecVal(a, w) if isinstance(a, int) else a
        B = z3.BitVecVal(b, w) if isinstance(b, int) else b
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.oblige_cond(st, B != 0, "division-by-zero", "mem")
        r = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B, "or": lambda: A | B, "xor": lambda: A ^ B,
             "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B), "ashr": lambda: A >> B, "udiv": lambda: z3.UDiv(A, B), "urem": lambda: z3.URem(A, B),
             "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B)}[op]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def icmp(self, st, pr, ty, a, b):
        if ty.k == "vec":
            return [self.icmp(st, pr, ty.el, x, y) for x, y in zip(a, b)]
        if isinstance(a, Undef) or isinstance(b, Undef): return z3.Bool(f"undef!{fresh_id()}")
        if ty.k == "ptr" or isinstance(a, Ptr) or isinstance(b, Ptr): return self.pcmp(st, pr, a, b)
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            if isinstance(a, PDiff) and isinstance(b, PDiff) and a.obj == b.obj:
                return self.offcmp(st, pr, a.off, b.off)
            if isinstance(a, PDiff) and a.obj is None and isinstance(b, int):
                sb = b - (1 << 64) if b >> 63 else b
                return self.offcmp(st, pr, a.off, sb)
            if isinstance(b, PDiff) and b.obj is None and isinstance(a, int):
                sa = a - (1 << 64) if a >> 63 else a
                return self.offcmp(st, pr, sa, b.off)
            if pr in ("eq", "ne"):
                # address compared with an integer constant 0
                x, y = (a, b) if isinstance(a, PDiff) else (b, a)
                if x.obj is not None and isinstance(y, int) and y == 0: return pr == "ne"
            a, b = self.unpd(st, a, 64), self.unpd(st, b, 64)
        w = ty.n
        if w == 1:
            a, b = simp_bool(bool(a) if isinstance(a, int) else a), simp_bool(bool(b) if isinstance(b, int) else b)
            if isinstance(a, bool): a, b = b, a
            if isinstance(b, bool):
                e = a if b else Not(a)
            else: e = a == b
            if pr == "eq": return e
            if pr == "ne": return Not(e)
            if pr == "ult": return And(Not(a), b)
            if pr == "ugt": return And(a, Not(b))
            raise Unsupported("icmp i1 " + pr)
        # boolean encoded integers compared with 0/1
        if pr in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y in (0, 1):
                    bb = self.as_bool(x)
                    if bb is not None:
                        return bb if (y == 1) == (pr == "eq") else Not(bb)
        if self.mode == "bv":
            if isinstance(a, int) and isinstance(b, int):
                M = 1 << w; sa = a - M if a >> (w - 1) else a; sb = b - M if b >> (w - 1) else b
                return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b, "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pr]
            A = z3.BitVecVal(a, w) if isinstance(a, int) else a
            B = z3.BitVecVal(b, w) if isinstance(b, int) else b
            r = {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B),
                 "slt": lambda: A < B, "sle": lambda: A <= B, "sgt": lambda: A > B, "sge": lambda: A >= B}[pr]()
            return simp_bool(z3.simplify(r))
        if pr[0] in "us": c = self.U if pr[0] == "u" else self.S
        else: c = self.U
        if pr in ("eq", "ne"):
            d = PL.eqsyn(a, b)
            if d is True: return pr == "eq"
            # equality modulo 2^w of small-range values needs no canonical form when the difference is small
            dd = PL.sub(a, b); lo, hi = interval(dd)
            if lo is not None and lo > -(1 << w) and hi < (1 << w):
                e = PL.to_int(dd) == 0 if not isinstance(dd, int) else dd == 0
                if lo > 0 or hi < 0: e = False
                if not isinstance(e, bool): e = PL.to_int(a) == PL.to_int(b)
                return e if pr == "eq" else Not(e)
        x, y = c(st, a, w), c(st, b, w)
        d = PL.sub(x, y)
        lo, hi = interval(d)
        if pr in ("eq", "ne"):
            if not isinstance(d, Poly): e = d == 0
            elif lo is not None and (lo > 0 or hi < 0): e = False
            else: e = PL.to_int(x) == PL.to_int(y)
            return e if pr == "eq" else Not(e)
        k = pr[1:]
        if not isinstance(d, Poly):
            return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[k]
        if lo is not None:
            if k == "lt" and hi < 0 or k == "le" and hi <= 0 or k == "gt" and lo > 0 or k == "ge" and lo >= 0: return True
            if k == "lt" and lo >= 0 or k == "le" and lo > 0 or k == "gt" and hi <= 0 or k == "ge" and hi < 0: return False
        X, Y = PL.to_int(x), PL.to_int(y)
        return {"lt": X < Y, "le": X <= Y, "gt": X > Y, "ge": X >= Y}[k]
    def offcmp(self, st, pr, a, b):
        d = PL.sub(a, b)
        if not isinstance(d, Poly):
            return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[pr if pr in ("eq", "ne") else pr[1:]]
        g = 0
        for v in d.m.values(): g = math.gcd(g, int(v))
        if g > 1: d = PL.exact_div(d, g)
        pos = PL.norm({k: v for k, v in d.m.items() if v > 0}); ng = PL.norm({k: -v for k, v in d.m.items() if v < 0})
        if self.mode == "int": X, Y = PL.to_int(pos), PL.to_int(ng)
        else: X, Y = PL.to_bv(pos), PL.to_bv(ng)
        if pr == "eq": return X == Y
        if pr == "ne": return X != Y
        return {"lt": X < Y, "le": X <= Y, "gt": X > Y, "ge": X >= Y}[pr[1:]]
    def pcmp(self, st, pr, a, b):
        a, b = self.toptr(st, a), self.toptr(st, b)
        if a.obj == b.obj:
            return self.offcmp(st, pr, a.off, b.off)
        if pr == "eq": return False
        if pr == "ne": return True
        if a.obj is None or b.obj is None:
            r = a.obj is None     # null < any object
            return {"lt": r, "le": r, "gt": not r, "ge": not r}[pr[1:]]
        if isinstance(a.obj, int) and isinstance(b.obj, int) and a.obj in st.mem and b.obj in st.mem:
            x, y = self.unpd(st, PDiff(a.obj, a.off), 64), self.unpd(st, PDiff(b.obj, b.off), 64)
            return self.icmp(st, "u" + pr[1:], IntTy(64), x, y)
        return z3.Bool(f"ptrord!{fresh_id()}")
    def toptr(self, st, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, PDiff) and v.obj is not None: return Ptr(v.obj, v.off)
        if isinstance(v, int) and v == 0: return NULL
        if isinstance(v, int): return Ptr(None, v)
        if isinstance(v, Undef): return Ptr(("undef",), 0)
        raise Unsupported(f"integer used as pointer: {v}")

    # ---------------------------------------------------------------- casts
    def cast(self, st, op, ft, tt, v):
        if ft.k == "vec" and tt.k == "vec" and op != "bitcast":
            return [self.cast(st, op, ft.el, tt.el, x) for x in v]
        if isinstance(v, Undef): return UNDEF
        if op == "zext":
            if ft.n == 1: return self.boolint(v if not isinstance(v, int) else bool(v), tt.n)
            v = self.unpd(st, v, ft.n)
            if self.mode == "int": return self.U(st, v, ft.n)
            if isinstance(v, int): return v
            b = self.as_bool(v)
            if b is not None: return self.boolint(b, tt.n)
            return z3.ZeroExt(tt.n - ft.n, v)
        if op == "sext":
            if ft.n == 1:
                if isinstance(v, (bool, int)): return (1 << tt.n) - 1 if v else 0
                if self.mode == "int": return PL.neg(self.boolint(v, tt.n))
                return z3.If(v, z3.BitVecVal(-1, tt.n), z3.BitVecVal(0, tt.n))
            v = self.unpd(st, v, ft.n)
            if self.mode == "int":
                r = self.S(st, v, ft.n)
                return r % (1 << tt.n) if isinstance(r, int) else r
            if isinstance(v, int): return (v - (1 << ft.n) if v >> (ft.n - 1) else v) % (1 << tt.n)
            return z3.SignExt(tt.n - ft.n, v)
        if op == "trunc":
            if isinstance(v, Cat) and tt.n % 8 == 0: return self.from_bytes(st, v.bs[:tt.n // 8], tt)
            if isinstance(v, PDiff) and v.obj is None: v = self.unpd(st, v, ft.n)
            v = self.unpd(st, v, ft.n)
            if tt.n == 1:
                if isinstance(v, int): return bool(v & 1)
                b = self.as_bool(v)
                if b is not None: return b
                if self.mode == "int":
                    u = self.divmod_i(st, False, self.U(st, v, ft.n), 2, ft.n)
                    return (u == 1) if isinstance(u, int) else PL.to_int(u) == 1
                return simp_bool(z3.simplify(z3.Extract(0, 0, v) == 1))
            if isinstance(v, int): return v % (1 << tt.n)
            if self.mode == "int": return v
            b = self.as_bool(v)
            if b is not None: return self.boolint(b, tt.n)
            r = z3.simplify(z3.Extract(tt.n - 1, 0, v))
            return r.as_long() if z3.is_bv_value(r) else r
        if op == "ptrtoint":
            p = self.toptr(st, v)
            if p.obj is None: return p.off
            return PDiff(p.obj, p.off)
        if op == "inttoptr":
            return self.toptr(st, v)
        if op == "bitcast":
            if ft.k == tt.k and ft.k in ("ptr", "int", "float", "double") and (ft.k != "int" or ft.n == tt.n): return v
            if ft.k == "vec" or tt.k == "vec": return self.bitcast_vec(st, ft, tt, v)
            if ft.k in ("float", "double") and tt.k == "int": return self.f2bits(st, ft.k, v)
            if ft.k == "int" and tt.k in ("float", "double"): return self.bits2f(st, tt.k, v)
        if op in ("sitofp", "uitofp"): return self.i2f(st, op, ft, tt, v)
        if op in ("fptosi", "fptoui"): return self.f2i(st, op, ft, tt, v)
        if op in ("fpext", "fptrunc"): return self.fconv(st, op, ft, tt, v)
        raise Unsupported(f"cast {op} {ft} {tt}")
    def bitcast_vec(self, st, ft, tt, v):
        if ft.k == "int":
            # integer -> vector: split
            eb = bits_of(tt.el)
            if eb == 1:
                out = []
                for i in range(tt.n):
                    if isinstance(v, int): out.append(bool(v >> i & 1))
                    elif self.mode == "bv": out.append(simp_bool(z3.simplify(z3.Extract(i, i, v) == 1)))
                    else:
                        q = self.divmod_i(st, True, self.U(st, v, ft.n), 1 << i, ft.n)
                        u = self.divmod_i(st, False, q, 2, ft.n); out.append(PL.to_int(u) == 1 if not isinstance(u, int) else u == 1)
                return out
            vb = self.bytes_of(st, v, ft)
        elif tt.k == "int" and bits_of(ft.el) == 1:
            r = 0
            for i, b in enumerate(v):
                if isinstance(b, (bool, int)): 
                    if b: r = PL.add(r, 1 << i) if self.mode == "int" else (r | (1 << i) if isinstance(r, int) else r | z3.BitVecVal(1 << i, tt.n))
                elif self.mode == "int": r = PL.add(r, PL.scale(self.boolint(b, tt.n), 1 << i))
                else:
                    x = z3.If(b, z3.BitVecVal(1 << i, tt.n), z3.BitVecVal(0, tt.n))
                    r = x | (z3.BitVecVal(r, tt.n) if isinstance(r, int) else r)
            return r
        elif ft.k == "vec" and tt.k == "vec" and ft.n == tt.n:
            return [self.cast(st, "bitcast", ft.el, tt.el, x) for x in v]
        elif ft.k == "vec":
            vb = []
            for x in v: vb += self.bytes_of(st, x, ft.el)
        if tt.k == "vec":
            es = size_of(tt.el)
            return [self.from_bytes(st, vb[i * es:(i + 1) * es], tt.el) for i in range(tt.n)]
        return self.from_bytes(st, vb, tt)
    def bytes_of(self, st, v, ty):
        """little-endian list of byte values; ('b', v, i) keeps untouched pieces lazily"""
        n = size_of(ty)
        if isinstance(v, Cat): return list(v.bs)
        return [("piece", v, ty, i) for i in range(n)]
    def byte_val(self, st, pc):
        if not (isinstance(pc, tuple) and pc[0] == "piece"): return pc
        _, v, ty, i = pc
        if isinstance(v, Undef): return self.new_int(st, 8, "undef")
        if ty.k in ("float", "double"): v = self.f2bits(st, ty.k, v); 
        elif ty.k == "ptr": raise Unsupported("byte of a pointer")
        w = bits_of(ty)
        if ty.k == "int" and ty.n == 1: v = self.boolint(v if not isinstance(v, int) else bool(v), 8)
        v = self.unpd(st, v, w)
        if isinstance(v, int): return (v >> (8 * i)) & 255
        if w == 8: return v
        if self.mode == "bv":
            r = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)); return r.as_long() if z3.is_bv_value(r) else r
        q = self.divmod_i(st, True, self.U(st, v, w), 1 << (8 * i), w)
        return self.divmod_i(st, False, q, 256, w)
    def runs(self, bs):
        """maximal groups of bytes that are one complete value"""
        out, i = [], 0
        while i < len(bs):
            b = bs[i]
            if isinstance(b, tuple) and b[0] == "piece" and b[3] == 0:
                n = size_of(b[2])
                if i + n <= len(bs) and all(isinstance(p, tuple) and p[0] == "piece" and p[1] is b[1] and p[3] == k for k, p in enumerate(bs[i:i + n])):
                    out.append(bs[i:i + n]); i += n; continue
            out.append([b]); i += 1
        return out
    def from_bytes(self, st, bs, ty):
        n = size_of(ty)
        p0 = bs[0]
        if isinstance(p0, tuple) and p0[0] == "piece":
            same = all(isinstance(p, tuple) and p[0] == "piece" and p[1] is p0[1] and p[3] == p0[3] + k for k, p in enumerate(bs))
            if same and p0[3] == 0 and size_of(p0[2]) == n:
                v, t0 = p0[1], p0[2]
                if t0.k == ty.k and (ty.k != "int" or t0.n == ty.n): return v
                if t0.k == "int" and ty.k in ("float", "double"): return self.bits2f(st, ty.k, v)
                if ty.k == "int" and t0.k in ("float", "double"): return self.f2bits(st, t0.k, v)
                if t0.k == "ptr" and ty.k == "int": return self.cast(st, "ptrtoint", PTR, ty, v)
                if t0.k == "int" and ty.k == "ptr": return self.toptr(st, v)
                if t0.k == "int" and ty.k == "int": return v if ty.n != 1 else self.cast(st, "trunc", t0, ty, v)
        if ty.k == "ptr": raise Unsupported("pointer assembled from bytes")
        runs = self.runs(bs)
        if ty.k == "int" and len(runs) > 1 and any(isinstance(x, tuple) and (x[2].k == "ptr" or x[2].k in ("float", "double") and self.fl == "real") for x in bs if isinstance(x, tuple)):
            return Cat(list(bs))
        if self.mode == "int" and len(runs) < n and ty.k == "int":
            r, k = 0, 0
            for run in runs:
                if len(run) > 1 or isinstance(run[0], tuple) and size_of(run[0][2]) == 1: x = self.from_bytes(st, run, IntTy(8 * len(run))); x = x % (1 << 8 * len(run)) if isinstance(x, int) else self.U(st, self.unpd(st, x, 8 * len(run)), 8 * len(run))
                else:
                    x = self.byte_val(st, run[0]); x = x if isinstance(x, int) else self.U(st, x, 8)
                r = PL.add(r, PL.scale(x, 1 << (8 * k))); k += len(run)
            return r
        bv = [self.byte_val(st, b) for b in bs]
        if all(isinstance(b, int) for b in bv): r = sum(b << (8 * i) for i, b in enumerate(bv))
        elif self.mode == "int":
            r = 0
            for i, b in enumerate(bv): r = PL.add(r, PL.scale(b if isinstance(b, int) else self.U(st, b, 8), 1 << (8 * i)))
        else:
            r = z3.simplify(z3.Concat(*[z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in reversed(bv)])) if n > 1 else bv[0]
        if ty.k in ("float", "double"): return self.bits2f(st, ty.k, r)
        if ty.k == "int" and ty.n == 1: return self.cast(st, "trunc", IntTy(8), ty, r)
        return r

    # ---------------------------------------------------------------- floats
    def f2bits(self, st, k, v):
        w = 32 if k == "float" else 64
        if isinstance(v, FBits): return v.b
        if isinstance(v, Undef): return UNDEF
        if self.fl == "real":
            if not isinstance(v, Poly):
                b = struct.unpack("<I" if w == 32 else "<Q", struct.pack("<f" if w == 32 else "<d", float(v)))[0]
                return b
            f = z3.Function(f"bits{w}", z3.RealSort(), z3.IntSort() if self.mode == "int" else z3.BitVecSort(w))
            t = f(PL.to_real(v)); self._keep(t)
            self.assumed["float bit patterns are an uninterpreted injective encoding of the real value"] = 1
            if self.mode == "int":
                r = atom(t, (0, (1 << w) - 1)); self.range_fact(st, r, w)
            else: r = t
            g = z3.Function(f"unbits{w}", t.sort(), z3.RealSort()); st.pc.append(g(t) == PL.to_real(v))
            return r
        t = z3.simplify(z3.fpToIEEEBV(v)) if z3.is_fp_value(v) else None
        if t is not None and z3.is_bv_value(t): return t.as_long()
        key = ("f2b", v.get_id())
        if key not in st.known:
            if self.mode == "bv":
                b = z3.BitVec(f"fb!{fresh_id()}", w)
                st.pc.append(z3.fpBVToFP(b, v.sort()) == v) if False else st.pc.append(z3.Or(z3.And(z3.fpIsNaN(v), z3.fpIsNaN(z3.fpBVToFP(b, v.sort()))), z3.fpToFP(b, v.sort()) == v))
                st.known[key] = b
            else: raise Unsupported("float bits in int/fp mode")
            self._keep(v)
        return st.known[key]
    def bits2f(self, st, k, v):
        w = 32 if k == "float" else 64
        if self.fl == "bits": return FBits(v)
        if isinstance(v, Undef): return UNDEF
        if isinstance(v, int):
            x = struct.unpack("<f" if w == 32 else "<d", struct.pack("<I" if w == 32 else "<Q", v))[0]
            return self.fconst(x, k)
        if self.fl == "fp":
            if self.mode == "bv": return z3.fpBVToFP(v, z3.Float32() if w == 32 else z3.Float64())
            raise Unsupported("bits to fp in int mode")
        f = z3.Function(f"unbits{w}", z3.IntSort() if self.mode == "int" else z3.BitVecSort(w), z3.RealSort())
        t = f(self.zi(self.U(st, v, w))); self._keep(t)
        return atom(t)
    def fconst(self, x, k):
        if self.fl == "bits":
            b = struct.unpack("<I" if k == "float" else "<Q", struct.pack("<f" if k == "float" else "<d", x))[0]
            return FBits(b)
        if self.fl == "fp": return z3.FPVal(x, z3.Float32() if k == "float" else z3.Float64())
        if x != x or x in (float("inf"), float("-inf")):
            n = "fp.nan" if x != x else ("fp.inf" if x > 0 else "fp.ninf")
            if self.o.get("inf_symbolic"):
                return atom(z3.Real(n))
            return atom(z3.Real(n))
        return Fraction(x)
    def fop(self, st, op, k, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh_fl(st, k, "undef")
        if self.fl == "bits":
            f = z3.Function(f"{op}_{k}", *([z3.IntSort() if self.mode == "int" else z3.BitVecSort(32 if k == "float" else 64)] * 3))
            w = 32 if k == "float" else 64
            t = f(self.zi(self.U(st, a.b, w), w), self.zi(self.U(st, b.b, w), w)); self._keep(t)
            if self.mode == "int":
                r = atom(t, (0, (1 << w) - 1)); self.range_fact(st, r, w); return FBits(r)
            return FBits(t)
        if self.fl == "real":
            self.assumed["floating-point arithmetic treated as real arithmetic (rounding, overflow, NaN ignored)"] = 1
            if op == "fadd": return PL.add(a, b)
            if op == "fsub": return PL.sub(a, b)
            if op == "fmul": return PL.mul(a, b)
            if op == "fdiv":
                c = PL.const_of(b)
                if c is not None and c != 0: return PL.scale(a, Fraction(1) / Fraction(c))
                if PL.const_of(a) == 0 and isinstance(a, (int, Fraction)): 
                    pass
                t = PL.to_real(a) / PL.to_real(b); self._keep(t)
                return atom(t)
            raise Unsupported(op)
        rm = z3.RNE()
        r = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](rm, a, b)
        return z3.simplify(r) if z3.is_fp_value(a) and z3.is_fp_value(b) else r
    def fcmp(self, st, pr, ty, a, b):
        if ty.k == "vec": return [self.fcmp(st, pr, ty.el, x, y) for x, y in zip(a, b)]
        if pr == "true": return True
        if pr == "false": return False
        if isinstance(a, Undef) or isinstance(b, Undef): return z3.Bool(f"undef!{fresh_id()}")
        if self.fl == "bits":
            w = 32 if ty.k == "float" else 64
            if self.mode != "bv": raise Unsupported("float comparison in bits/int mode")
            so = z3.Float32() if w == 32 else z3.Float64()
            a, b = z3.fpBVToFP(self.zi(a.b, w), so), z3.fpBVToFP(self.zi(b.b, w), so)
        if self.fl == "real":
            if pr in ("ord", "uno"):
                na = self.isnan_real(a), self.isnan_real(b)
                n = Or(*na)
                return n if pr == "uno" else Not(n)
            d = PL.sub(a, b); k = pr[1:]
            if not isinstance(d, Poly): return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[k]
            X, Y = PL.to_real(a), PL.to_real(b)
            return {"eq": lambda: X == Y, "ne": lambda: X != Y, "lt": lambda: X < Y, "le": lambda: X <= Y, "gt": lambda: X > Y, "ge": lambda: X >= Y}[k]()
        n = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pr == "ord": return simp_bool(z3.simplify(Not(n)))
        if pr == "uno": return simp_bool(z3.simplify(n))
        k = pr[1:]
        c = {"eq": lambda: z3.fpEQ(a, b), "ne": lambda: z3.Not(z3.fpEQ(a, b)), "lt": lambda: z3.fpLT(a, b), "le": lambda: z3.fpLEQ(a, b), "gt": lambda: z3.fpGT(a, b), "ge": lambda: z3.fpGEQ(a, b)}[k]()
        if pr[0] == "o": r = c if k != "ne" else z3.And(Not(n), c)
        else: r = z3.Or(n, c) if k != "ne" else c
        return simp_bool(z3.simplify(r)) if z3.is_fp_value(a) and z3.is_fp_value(b) else r
    def isnan_real(self, a):
        """In real mode NaN does not exist."""
        self.assumed["NaN does not occur (real-number abstraction of float data)"] = 1
        return False
    def i2f(self, st, op, ft, tt, v):
        if self.fl == "real":
            if ft.n == 1: b = self.boolint(v, 8); 
            v = self.unpd(st, v, ft.n) if ft.n > 1 else b
            if self.mode == "int":
                x = (self.S if op == "sitofp" else self.U)(st, v, ft.n) if ft.n > 1 else v
                if not isinstance(x, Poly): return Fraction(x)
                # monomial-wise ToReal
                r = 0
                for k, c in x.m.items():
                    t = c
                    for i in k: t = PL.mul(t, atom(z3.ToReal(PL.ATOMS[i])))
                    r = PL.add(r, t)
                return r
            if isinstance(v, int): return Fraction(v if op == "uitofp" or not v >> (ft.n - 1) else v - (1 << ft.n))
            t = z3.ToReal(z3.BV2Int(v, op == "sitofp")); self._keep(t); return atom(t)
        if self.fl == "fp":
            if self.mode == "bv":
                V = z3.BitVecVal(v, ft.n) if isinstance(v, int) else v
                so = z3.Float32() if tt.k == "float" else z3.Float64()
                r = z3.fpSignedToFP(z3.RNE(), V, so) if op == "sitofp" else z3.fpUnsignedToFP(z3.RNE(), V, so)
                return z3.simplify(r) if isinstance(v, int) else r
            if isinstance(v, int):
                x = self.S(st, v, ft.n) if op == "sitofp" else v
                return z3.FPVal(x, z3.Float32() if tt.k == "float" else z3.Float64())
        if self.fl == "bits" and isinstance(v, int):
            x = self.S(st, v, ft.n) if op == "sitofp" and self.mode == "int" else v
            return self.fconst(float(x), tt.k)
        raise Unsupported(f"{op} in {self.fl} mode")
    def f2i(self, st, op, ft, tt, v):
        if self.fl == "real":
            if not isinstance(v, Poly): return int(v) % (1 << tt.n)
            t = z3.ToInt(PL.to_real(v)); self._keep(t)     # floor
            tr = z3.If(PL.to_real(v) >= 0, t, -z3.ToInt(-PL.to_real(v)))
            if self.prove(st, PL.to_real(v) >= 0): tr = t
            self._keep(tr)
            if self.mode == "int":
                r = atom(tr)
                lim = (0, (1 << tt.n) - 1) if op == "fptoui" else (-(1 << (tt.n - 1)), (1 << (tt.n - 1)) - 1)
                self.oblige_cond(st, z3.And(tr >= lim[0], tr <= lim[1]), "float-to-int-in-range", "mem")
                return r
            return z3.Int2BV(tr, tt.n)
        if self.fl == "fp" and self.mode == "bv":
            w = tt.n
            self.oblige_cond(st, self.f2i_ok(v, w, op), "float-to-int-in-range", "mem")
            r = z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w)) if op == "fptoui" else z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w))
            return r
        raise Unsupported(f"{op} in {self.fl}/{self.mode} mode")
    def f2i_ok(self, v, w, op):
        so = v.sort()
        if op == "fptoui": lo, hi = -1.0, 2.0 ** w
        else: lo, hi = -(2.0 ** (w - 1)) - 1, 2.0 ** (w - 1)
        return z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGT(v, z3.FPVal(lo, so)) if lo == -1.0 or w < 23 else z3.fpGEQ(v, z3.FPVal(-(2.0 ** (w - 1)), so)), z3.fpLT(v, z3.FPVal(hi, so)))
    def fconv(self, st, op, ft, tt, v):
        if self.fl == "real":
            return v
        if self.fl == "fp":
            return z3.simplify(z3.fpFPToFP(z3.RNE(), v, z3.Float64() if tt.k == "double" else z3.Float32())) if z3.is_fp_value(v) else z3.fpFPToFP(z3.RNE(), v, z3.Float64() if tt.k == "double" else z3.Float32())
        if self.fl == "bits":
            w1, w2 = (32, 64) if op == "fpext" else (64, 32)
            so = lambda w: z3.IntSort() if self.mode == "int" else z3.BitVecSort(w)
            f = z3.Function(op, so(w1), so(w2)); t = f(self.zi(self.U(st, v.b, w1), w1)); self._keep(t)
            if self.mode == "int":
                r = atom(t, (0, (1 << w2) - 1)); self.range_fact(st, r, w2); return FBits(r)
            return FBits(t)
        raise Unsupported(op)

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, name, kind, dflt=("uninit",), stride=None, align=16):
        i = next(self.nobj)
        o = Obj(i, size, name, kind, dflt, stride); o.tag = {"align": align}
        st.mem[i] = o
        return o
    def idx_sort(self): return z3.IntSort() if self.mode == "int" else z3.BitVecSort(64)
    def zoff(self, o): 
        if self.mode == "int": return PL.to_int(o)
        return PL.to_bv(o)
    def bounds(self, st, p, sz, what):
        if p.obj is None or isinstance(p.obj, tuple):
            self.oblige(st, False, f"memory-safety:{what}:null-or-invalid-pointer", "mem"); raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None or not o.alive: self.oblige(st, False, f"memory-safety:{what}:use-after-free", "mem"); raise PathEnd()
        if not self.o["mem_check"] or o.size is None: return o
        if not isinstance(p.off, Poly) and not isinstance(o.size, Poly):
            if 0 <= p.off and p.off + sz <= o.size: return o
            self.oblige(st, False, f"memory-safety:{what}:out-of-bounds", "mem"); raise PathEnd()
        if self.mode == "int":
            lo = PL.to_int(p.off) >= 0 if isinstance(p.off, Poly) else p.off >= 0
            d = PL.sub(PL.sub(o.size, p.off), sz)
            hi = PL.to_int(d) >= 0 if isinstance(d, Poly) else d >= 0
            l2, _ = interval(p.off)
            if l2 is not None and l2 >= 0: lo = True
            l3, _ = interval(d)
            if l3 is not None and l3 >= 0: hi = True
            self.oblige_cond(st, And(lo, hi), f"memory-safety:{what}:bounds", "mem")
        else:
            # unsigned comparison on element index when everything is a multiple of the stride
            s = o.stride or 1
            fo = 0
            offc = p.off.m.get((), 0) if isinstance(p.off, Poly) else p.off
            if s > 1:
                fo = offc % s
                base = PL.sub(p.off, fo)
                if PL.divisible(base, s) and PL.divisible(o.size, s) and fo + sz <= s:
                    i, n = PL.exact_div(base, s), PL.exact_div(o.size, s)
                    self.oblige_cond(st, z3.ULT(self.zoff(i), self.zoff(n)), f"memory-safety:{what}:bounds", "mem"); return o
            a, n = self.zoff(p.off), self.zoff(o.size)
            self.oblige_cond(st, z3.And(z3.ULE(a, n), z3.UGE(n - a, sz)), f"memory-safety:{what}:bounds", "mem")
        return o

    def load(self, st, ty, p):
        p = self.toptr(st, p)
        if ty.k == "vec":
            es = size_of(ty.el)
            if ty.el.k == "int" and ty.el.n < 8: raise Unsupported("sub-byte vector load")
            return [self.load(st, ty.el, Ptr(p.obj, PL.add(p.off, k * es))) for k in range(ty.n)]
        if ty.k == "struct": return [self.load(st, e, Ptr(p.obj, PL.add(p.off, field_off(ty, i)))) for i, e in enumerate(ty.els)]
        if ty.k == "array": return [self.load(st, ty.el, Ptr(p.obj, PL.add(p.off, i * size_of(ty.el)))) for i in range(ty.n)]
        o = self.bounds(st, p, size_of(ty), "load in " + self.shortfn(st))
        return self.rd(st, o, p.off, ty)
    def store(self, st, ty, v, p):
        p = self.toptr(st, p)
        if ty.k == "vec":
            es = size_of(ty.el)
            if isinstance(v, Undef): v = [UNDEF] * ty.n
            for k in range(ty.n): self.store(st, ty.el, v[k], Ptr(p.obj, PL.add(p.off, k * es)))
            return
        if ty.k == "struct":
            if isinstance(v, Undef): v = [UNDEF] * len(ty.els)
            for i, e in enumerate(ty.els): self.store(st, e, v[i], Ptr(p.obj, PL.add(p.off, field_off(ty, i))))
            return
        if ty.k == "array":
            for i in range(ty.n): self.store(st, ty.el, UNDEF if isinstance(v, Undef) else v[i], Ptr(p.obj, PL.add(p.off, i * size_of(ty.el))))
            return
        o = self.bounds(st, p, size_of(ty), "store in " + self.shortfn(st))
        if o.const: self.oblige(st, False, "memory-safety:write-to-constant", "mem")
        self.wr(st, o.id, p.off, ty, v)
    def shortfn(self, st):
        n = st.frames[-1].fn.dname if st.frames else "?"
        return short(n)

    def log_write(self, st, o, what, ty=None):
        w = st.wlog
        while w is not None:
            if o.id <= w["mark"]:
                w["w"].add((o.id,) + what)
                if ty is not None: w["ty"][(o.id, what[1])] = ty
            w = w["up"]

    def wr(self, st, oid, off, ty, v):
        o = st.wobj(oid); sz = size_of(ty)
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            v = self.boolint(v, 8); ty = IntTy(8)
        if o.stride is None:
            if not isinstance(off, Poly):
                off = int(off)
                # drop / split overlapping cells
                if off in o.cells and o.cells[off][0] == sz:
                    o.cells[off] = (sz, ty, v)
                else:
                    for c in self.overl(o, off, sz):
                        csz, cty, cv = o.cells.pop(c)
                        for k in range(csz):
                            if not (off <= c + k < off + sz): o.cells[c + k] = (1, IntTy(8), ("piece", cv, cty, k))
                    o.cells[off] = (sz, ty, v)
                self.log_write(st, o, ("cell", off, sz), ty)
                return
            self.to_stride(st, o, off, sz)
        # stride object
        if ty.k == "int" and self.mode == "int" and isinstance(v, Poly): v = self.U(st, v, ty.n)
        self.log_write(st, o, ("arr", self.fo_of(o, off), sz))
        o.top = Layer("st", (off, sz, ty, v), o.top)
    def overl(self, o, off, sz):
        if sz <= 64 and len(o.cells) > 40:
            return [c for c in range(off - 63, off + sz) if c in o.cells and c + o.cells[c][0] > off]
        return [c for c in o.cells if c < off + sz and c + o.cells[c][0] > off]
    def fo_of(self, o, off):
        if not isinstance(off, Poly): return int(off) % o.stride
        if all(v % o.stride == 0 for k, v in off.m.items() if k != ()): return int(off.m.get((), 0)) % o.stride
        return None
    def to_stride(self, st, o, off, sz):
        g = 0
        for k, v in off.m.items():
            if k != (): g = math.gcd(g, int(v))
        s = g if g >= sz and g > 0 else (sz if g % sz == 0 and g else 1)
        if isinstance(o.tag, dict) and o.tag.get("elem"): s = o.tag["elem"]
        if s > 64 and not (isinstance(o.tag, dict) and o.tag.get("elem")): s = sz
        o.stride = s
        for c in sorted(o.cells):
            csz, cty, cv = o.cells[c]
            o.top = Layer("st", (c, csz, cty, cv), o.top)
        o.cells = {}

    def rd(self, st, o, off, ty):
        sz = size_of(ty)
        if o.stride is None:
            if not isinstance(off, Poly):
                off = int(off)
                c = o.cells.get(off)
                if c is not None and c[0] == sz:
                    csz, cty, cv = c
                    if isinstance(cv, tuple) and cv[0] == "piece":
                        return self.from_bytes(st, [cv], ty)
                    if isinstance(cv, tuple) and cv[0] == "lazy": return self.rdlazy(st, cv, ty, sz)
                    return self.from_bytes(st, self.bytes_of(st, cv, cty), ty) if (cty.k != ty.k or (ty.k == "int" and cty.n != ty.n)) else cv
                ov = self.overl(o, off, sz)
                if not ov:
                    v = self.dflt_cell(st, o, off, ty)
                    if o.dflt[0] in ("uninit", "sym"):
                        st.wobj(o.id).cells[off] = (sz, ty, v)
                    return v
                # a lazily copied block containing this range
                for c in ov:
                    csz, cty, cv = o.cells[c]
                    if isinstance(cv, tuple) and cv[0] == "lazy" and c <= off and off + sz <= c + csz:
                        return self.rdlazy(st, ("lazy", cv[1], PL.add(cv[2], off - c)), ty, sz)
                bs = []
                for k in range(sz):
                    bs.append(self.cell_byte(st, o, off + k, ov))
                return self.from_bytes(st, bs, ty)
            if o.table is None and o.const and o.dflt[0] == "init": pass
            o = st.wobj(o.id)
            self.to_stride(st, o, off, sz)
        return self.rd_stride(st, o, o.top, off, ty)
    def cell_byte(self, st, o, b, ov):
        for c in ov:
            csz, cty, cv = o.cells[c]
            if c <= b < c + csz:
                if isinstance(cv, tuple) and cv[0] == "piece": return cv
                if isinstance(cv, tuple) and cv[0] == "lazy":
                    return self.rdlazy(st, ("lazy", cv[1], PL.add(cv[2], b - c)), IntTy(8), 1)
                return ("piece", cv, cty, b - c)
        return self.dflt_cell(st, o, b, IntTy(8))
    def rdlazy(self, st, cv, ty, sz):
        _, snap, soff = cv
        if snap.stride is None: return self.rd_snap(st, snap, soff, ty)
        return self.rd_stride(st, snap, snap.top, soff, ty)
    def rd_snap(self, st, snap, off, ty):
        # snapshot of a cell object: emulate rd without writing back
        o2 = snap.clone(); key = snap.id
        old = st.mem.get(key); st.mem[key] = o2; sh = key in st.shared; st.shared.discard(key)
        try: v = self.rd(st, o2, off, ty)
        finally:
            st.mem[key] = old
            if sh: st.shared.add(key)
        return v
    def dflt_cell(self, st, o, off, ty):
        d = o.dflt
        if d[0] == "zero": return self.zero_of(ty)
        if d[0] == "uninit":
            return self.named(st, f"un{o.id}_{d[1] if len(d) > 1 else ''}o{off}", ty)
        if d[0] == "sym": return self.named(st, f"{d[1]}_o{off}", ty)
        if d[0] == "init":
            return self.init_read(st, d[1], d[2], off, ty)
        raise Unsupported("default " + d[0])
    def zero_of(self, ty):
        if ty.k == "int": return 0 if ty.n > 1 else False
        if ty.k in ("float", "double"): return self.fconst(0.0, ty.k)
        if ty.k == "ptr": return NULL
        raise Unsupported("zero of " + repr(ty))
    def named(self, st, name, ty):
        """symbol with a deterministic name"""
        sz = size_of(ty)
        if ty.k == "int":
            n = f"{name}_i{sz}"
            if self.mode == "int":
                t = z3.Int(n); r = atom(t, (0, (1 << (8 * sz)) - 1)); self.range_fact_once(st, r, 8 * sz); 
            else: r = z3.BitVec(n, 8 * sz)
            if ty.n == 1: return self.cast(st, "trunc", IntTy(8), ty, r)
            return r
        if ty.k in ("float", "double"):
            n = f"{name}_f{sz}"
            if self.fl == "real": return atom(z3.Real(n))
            if self.fl == "fp": return z3.FP(n, z3.Float32() if sz == 4 else z3.Float64())
            return FBits(self.named(st, name, IntTy(8 * sz)))
        raise Unsupported(f"uninitialised {ty} read ({name})")
    def range_fact_once(self, st, v, w):
        k = ("rf", v.key())
        if k not in st.ranges: st.ranges.add(k); self.range_fact(st, v, w)

    def base_read(self, st, o, name, off, ty):
        """read from the symbolic initial content `name` of a stride object"""
        sz, s = size_of(ty), o.stride
        c = off.m.get((), 0) if isinstance(off, Poly) else off
        fo = int(c) % s
        body = PL.sub(off, fo)
        if not PL.divisible(body, s) or fo + sz > s:
            if s == 1 or sz > 1:
                bs = [self.base_read(st, o, name, PL.add(off, k), IntTy(8)) if s == 1 else None for k in range(sz)]
                if s == 1: return self.from_bytes(st, bs, ty)
            raise Unsupported(f"access pattern not aligned to element size {s} in {o.name}")
        idx = PL.exact_div(body, s)
        if ty.k == "ptr": return self.base_ptr(st, o, name, fo, idx)
        isf = ty.k in ("float", "double")
        reg = FIELDS.setdefault(o.id, {})
        if ty.k == "int" and sz in (2, 4, 8) and reg.get(fo, ty).__class__ and fo in reg and size_of(reg[fo]) < sz:
            bs, k = [], fo
            while k < fo + sz and k in reg:
                t = reg[k]; v = self.base_read(st, o, name, PL.add(off, k - fo), t); bs += self.bytes_of(st, v, t); k += size_of(t)
            if k == fo + sz: return self.from_bytes(st, bs, ty)
        if fo not in reg and not any(a < fo + sz and fo < a + size_of(t) for a, t in reg.items()): reg[fo] = ty
        if isf and self.fl == "real": vs, tg = z3.RealSort(), "r"
        elif isf and self.fl == "fp": vs, tg = (z3.Float32() if sz == 4 else z3.Float64()), "p"
        else: vs, tg = (z3.IntSort() if self.mode == "int" else z3.BitVecSort(8 * sz)), "i"
        arr = z3.Array(f"{name}_e{fo}_{sz}{tg}", self.idx_sort(), vs)
        t = z3.Select(arr, self.zoff(idx)); self._keep(t)
        if tg == "r": return atom(t)
        if tg == "p": return t
        if self.mode == "int":
            r = atom(t, (0, (1 << (8 * sz)) - 1)); self.range_fact_once(st, r, 8 * sz)
        else: r = t
        if isf: return FBits(r)
        if ty.n == 1: return self.cast(st, "trunc", IntTy(8), ty, r)
        return r
    def base_ptr(self, st, o, name, fo, idx):
        fam = (o.tag or {}).get("family") if isinstance(o.tag, dict) else None
        if fam is None: raise Unsupported(f"symbolic pointer element of {o.name}")
        return fam(self, st, o, name, fo, idx)

    def rd_stride(self, st, o, top, off, ty):
        sz = size_of(ty); ly = top
        while ly is not None:
            if ly.k == "st":
                loff, lsz, lty, lv = ly.a
                rel = self.rel(st, o, off, sz, loff, lsz)
                if rel == "same": return self.lconv(st, lv, lty, ty)
                if rel == "disj": ly = ly.below; continue
                if isinstance(rel, tuple) and rel[0] == "in":     # read inside the store
                    if isinstance(lv, tuple) and lv[0] == "lazy": return self.rdlazy(st, ("lazy", lv[1], PL.add(lv[2], rel[1])), ty, sz)
                    bs = self.bytes_of(st, lv, lty)[rel[1]:rel[1] + sz]
                    return self.from_bytes(st, bs, ty)
                if rel == "maybe":                                 # same field, unknown index
                    if ty.k == "ptr" or lty.k == "ptr" or isinstance(lv, (Ptr, PDiff)):
                        c = self.offcmp(st, "eq", off, loff); raise Fork([(zb(c), None), (zb(Not(c)), None)])
                    below = self.rd_stride(st, o, ly.below, off, ty)
                    return self.ite(st, self.offcmp(st, "eq", off, loff), self.lconv(st, lv, lty, ty), below, ty)
                if isinstance(rel, tuple) and rel[0] == "maybein":  # element store vs field read, unknown index
                    below = self.rd_stride(st, o, ly.below, off, ty)
                    if isinstance(lv, tuple) and lv[0] == "lazy": v = self.rdlazy(st, ("lazy", lv[1], PL.add(lv[2], rel[1])), ty, sz)
                    else: v = self.from_bytes(st, self.bytes_of(st, lv, lty)[rel[1]:rel[1] + sz], ty)
                    return self.ite(st, self.offcmp(st, "eq", PL.sub(off, rel[1]), loff), v, below, ty)
                # general overlap: byte by byte
                if sz > 1:
                    return self.from_bytes(st, [self.rd_stride(st, o, top if False else ly, PL.add(off, k), IntTy(8)) for k in range(sz)], ty)
                below = self.rd_stride(st, o, ly.below, off, ty)
                if isinstance(lv, tuple) and lv[0] == "lazy":
                    c = self.inrange(st, off, 1, loff, lsz)
                    if c is False: return below
                    v = self.rdlazy(st, ("lazy", lv[1], PL.add(lv[2], PL.sub(off, loff))), ty, 1)
                    return v if c is True else self.ite(st, c, v, below, ty)
                r = below
                for k in range(lsz):
                    bvv = self.from_bytes(st, [self.bytes_of(st, lv, lty)[k]] if not (isinstance(lv, tuple) and lv[0] == "piece") else [lv], IntTy(8))
                    r = self.ite(st, self.offcmp(st, "eq", off, PL.add(loff, k)), bvv, r, IntTy(8))
                return r
            if ly.k == "cp":       # bytes [lo, lo+n) come from snapshot
                lo, n, snap, slo = ly.a
                c = self.inrange(st, off, sz, lo, n)
                if c is True:
                    return self.rdlazy(st, ("lazy", snap, PL.add(PL.sub(off, lo), slo)), ty, sz)
                if c is False: ly = ly.below; continue
                a = self.rdlazy(st, ("lazy", snap, PL.add(PL.sub(off, lo), slo)), ty, sz)
                b = self.rd_stride(st, o, ly.below, off, ty)
                return self.ite(st, c, a, b, ty)
            if ly.k == "fill":
                lo, n, byte = ly.a
                c = self.inrange(st, off, sz, lo, n)
                if c is False: ly = ly.below; continue
                v = self.from_bytes(st, [byte] * sz, ty) if not (byte == 0) else self.zero_of(ty)
                if c is True: return v
                return self.ite(st, c, v, self.rd_stride(st, o, ly.below, off, ty), ty)
            if ly.k == "fillv":     # typed element fill
                lo, n, esz, ety, ev = ly.a
                c = self.inrange(st, off, sz, lo, n)
                if c is False: ly = ly.below; continue
                if sz != esz: raise Unsupported("typed fill read at another size")
                v = self.lconv(st, ev, ety, ty)
                if c is True: return v
                return self.ite(st, c, v, self.rd_stride(st, o, ly.below, off, ty), ty)
            if ly.k == "hav":      # havoc of the listed fields (None: everything)
                fields, name = ly.a
                fo = self.fo_of(o, off)
                if fields is None or fo is None or any(f is None or (f < fo + sz and fo < f + s2) for f, s2 in fields):
                    return self.base_read(st, o, name, off, ty)
                ly = ly.below; continue
            if ly.k == "fn":       # functional content: f(engine, st, off, ty) -> value or None
                v = ly.a(self, st, o, off, ty)
                if v is not None: return v
                ly = ly.below; continue
            raise Unsupported("layer " + ly.k)
        d = o.dflt
        if d[0] == "zero": return self.zero_of(ty)
        if d[0] == "uninit": return self.base_read(st, o, f"un{o.id}", off, ty)
        if d[0] == "sym": return self.base_read(st, o, d[1], off, ty)
        if d[0] == "init":
            if not isinstance(off, Poly): return self.init_read(st, d[1], d[2], int(off), ty)
            return self.table_read(st, o, off, ty)
        raise Unsupported("default " + d[0])
    def table_read(self, st, o, off, ty):
        """symbolic index into a constant table: an array whose entries are asserted"""
        sz = size_of(ty); s = o.stride
        fo = self.fo_of(o, off)
        if fo is None: raise Unsupported("table access")
        n = o.size // s
        if n > 4096: raise Unsupported("large constant table")
        idx = PL.exact_div(PL.sub(off, fo), s)
        if ty.k == "ptr":
            k = self.conc(st, idx if self.mode == "int" else PL.to_bv(idx), 64, 256, "pointer table")
            return self.init_read(st, o.dflt[1], o.dflt[2], k * s + fo, ty)
        r = self.init_read(st, o.dflt[1], o.dflt[2], (n - 1) * s + fo, ty)
        for k in range(n - 2, -1, -1):
            r = self.ite(st, self.zoff(idx) == k, self.init_read(st, o.dflt[1], o.dflt[2], k * s + fo, ty), r, ty)
        return r
    def lconv(self, st, v, ty0, ty):
        if isinstance(v, tuple) and v[0] == "lazy": return self.rdlazy(st, v, ty, size_of(ty))
        if isinstance(v, tuple) and v[0] == "piece": return self.from_bytes(st, [v], ty)
        if isinstance(v, Undef): return self.named(st, f"und{id(v)}_{fresh_id()}", ty) if ty.k != "ptr" else Ptr(("undef",), 0)
        if ty0.k == ty.k and (ty.k != "int" or ty0.n == ty.n): return v
        return self.from_bytes(st, self.bytes_of(st, v, ty0), ty)
    def rel(self, st, o, off, sz, loff, lsz):
        d = PL.sub(off, loff)
        if not isinstance(d, Poly):
            if d == 0 and sz == lsz: return "same"
            if d >= lsz or d + sz <= 0: return "disj"
            if d >= 0 and d + sz <= lsz: return ("in", int(d))
            return "over"
        s = o.stride
        fo, fl = self.fo_of(o, off), self.fo_of(o, loff)
        if fo is not None and fl is not None and fo + sz <= s and fl + lsz <= s:
            if fo >= fl + lsz or fl >= fo + sz: return "disj"
            if fo == fl and sz == lsz:
                k = self.qrel(st, off, loff)
                return {"eq": "same", "ne": "disj"}.get(k, "maybe")
            if fl <= fo and fo + sz <= fl + lsz:
                k = self.qrel(st, PL.sub(off, fo - fl), loff)
                return {"eq": ("in", fo - fl), "ne": "disj"}.get(k, ("maybein", fo - fl))
        # byte-granular: interval proofs
        if self.mode == "int":
            zd = PL.to_int(d)
            if self.prove(st, z3.Or(zd >= lsz, zd + sz <= 0)): return "disj"
            if sz == lsz and self.prove(st, zd == 0): return "same"
        else:
            zd = PL.to_bv(d)
            if self.prove(st, z3.And(z3.UGE(zd, lsz), z3.ULE(zd, (1 << 64) - sz))): return "disj"
            if sz == lsz and self.prove(st, zd == 0): return "same"
        return "over"
    def qrel(self, st, a, b):
        """decided equality of two offsets under the path condition: 'eq' / 'ne' / None"""
        c = self.offcmp(st, "eq", a, b)
        if c is True: return "eq"
        if c is False: return "ne"
        if not self.o["alias_query"]: return None
        if self.prove(st, c): return "eq"
        if self.prove(st, Not(c)): return "ne"
        return None
    def inrange(self, st, off, sz, lo, n):
        """[off, off+sz) inside [lo, lo+n)?  True / False / condition (element granular)"""
        a = self.offcmp(st, "sge", off, lo)
        b = self.offcmp(st, "slt", off, PL.add(lo, n))
        c = And(a, b)
        if isinstance(c, bool): return c
        if self.prove(st, c): return True
        if self.prove(st, Not(c)): return False
        return c
    def ite(self, st, c, a, b, ty):
        c = simp_bool(c)
        if c is True: return a
        if c is False: return b
        if ty.k == "ptr":
            pa, pb = self.toptr(st, a), self.toptr(st, b)
            if pa.obj == pb.obj and PL.eqsyn(pa.off, pb.off): return pa
            if pa.obj == pb.obj and pa.obj is not None:
                d = PL.sub(pb.off, pa.off)
                if self.mode == "int":
                    if not isinstance(d, Poly): return Ptr(pa.obj, PL.add(pb.off, PL.scale(atom(z3.If(c, 1, 0) if False else self._b01(c)), -d)))
            raise Fork([(zb(c), None), (zb(Not(c)), None)])
        if ty.k == "vec": return [self.ite(st, c, x, y, ty.el) for x, y in zip(a, b)]
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if ty.k in ("float", "double"):
            if self.fl == "real":
                if PL.eqsyn(a, b): return a
                t = z3.If(c, PL.to_real(a), PL.to_real(b)); self._keep(t); return atom(t)
            if self.fl == "fp": return z3.If(c, a, b)
            return FBits(self.ite(st, c, a.b, b.b, IntTy(32 if ty.k == "float" else 64)))
        if ty.k == "int":
            if ty.n == 1:
                a, b = (bool(a) if isinstance(a, int) else a), (bool(b) if isinstance(b, int) else b)
                if a is True and b is False: return c
                if a is False and b is True: return Not(c)
                return z3.If(c, zb(a), zb(b))
            if isinstance(a, PDiff) or isinstance(b, PDiff):
                if not (isinstance(a, PDiff) and isinstance(b, PDiff) and a.obj == b.obj and PL.eqsyn(a.off, b.off)): raise Fork([(zb(c), None), (zb(Not(c)), None)])
                return a
            a, b = self.unpd(st, a, ty.n), self.unpd(st, b, ty.n)
            if self.mode == "int":
                if PL.eqsyn(a, b): return a
                la, ha = interval(a); lb, hb = interval(b)
                M = 1 << ty.n
                if la is None or la < 0 or ha >= M: a = self.U(st, a, ty.n); la, ha = interval(a)
                if lb is None or lb < 0 or hb >= M: b = self.U(st, b, ty.n); lb, hb = interval(b)
                ba, bb = self.as_bool(a), self.as_bool(b)
                if ba is None and isinstance(a, int) and a in (0, 1): ba = bool(a)
                if bb is None and isinstance(b, int) and b in (0, 1): bb = bool(b)
                if ba is not None and bb is not None:
                    return self.boolint(simp_bool(z3.simplify(z3.If(c, zb(ba), zb(bb)))), ty.n)
                t = z3.If(c, PL.to_int(a), PL.to_int(b)); self._keep(t)
                r = (min(la, lb), max(ha, hb)) if la is not None and lb is not None else (0, M - 1)
                return atom(t, r)
            if isinstance(a, int) and isinstance(b, int):
                if a == b: return a
                if a == 1 and b == 0: return self.boolint(c, ty.n)
                if a == 0 and b == 1: return self.boolint(Not(c), ty.n)
            A = z3.BitVecVal(a, ty.n) if isinstance(a, int) else a
            B = z3.BitVecVal(b, ty.n) if isinstance(b, int) else b
            return z3.If(c, A, B)
        raise Unsupported(f"ite on {ty}")
    def _b01(self, c):
        t = z3.If(c, z3.IntVal(1), z3.IntVal(0)); PL.BOOLI[t.get_id()] = c; self._keep(t); PL.RNG[t.get_id()] = (0, 1); return t

    def memcpy(self, st, dst, src, n):
        """memcpy/memmove of n bytes (int value, canonical)"""
        dst, src = self.toptr(st, dst), self.toptr(st, src)
        n = self.U(st, self.unpd(st, n, 64), 64)
        if isinstance(n, int):
            if n == 0: return
            so = self.bounds(st, src, n, "copy source in " + self.shortfn(st)); do = self.bounds(st, dst, n, "copy destination in " + self.shortfn(st))
            self.copy_const(st, dst, src, n); return
        nn = n if self.mode == "int" else self.off_of(n)
        for p, w in ((src, "copy source"), (dst, "copy destination")):
            if p.obj is None or isinstance(p.obj, tuple):
                self.oblige_cond(st, self.zi(n) == 0, f"memory-safety:{w}:null-pointer", "mem"); return
            o = st.mem[p.obj]
            if o.size is None or not self.o["mem_check"]: continue
            if self.mode == "int":
                c = z3.Or(PL.to_int(nn) == 0, z3.And(PL.to_int(p.off) >= 0, PL.to_int(PL.sub(PL.sub(o.size, p.off), nn)) >= 0))
            else:
                a, sz, N = PL.to_bv(p.off), PL.to_bv(o.size), PL.to_bv(nn)
                c = z3.And(z3.ULE(a, sz), z3.ULE(N, sz - a))
            self.oblige_cond(st, c, f"memory-safety:{w} in {self.shortfn(st)}:bounds", "mem")
        self.copy_range(st, dst, src, nn)
    def off_of(self, n):
        """BV value -> offset Poly"""
        if isinstance(n, int): return n
        if isinstance(n, PDiff): return n.off
        return self.bv_poly(n)
    def bv_poly(self, t):
        if z3.is_bv_value(t): 
            v = t.as_long(); return v - (1 << 64) if v >> 63 else v
        k = t.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = 0
            for c in t.children(): r = PL.add(r, self.bv_poly(c))
            return r
        if k == z3.Z3_OP_BSUB:
            c = t.children(); return PL.sub(self.bv_poly(c[0]), self.bv_poly(c[1]))
        if k == z3.Z3_OP_BMUL:
            cs = t.children()
            if len(cs) == 2 and z3.is_bv_value(cs[0]):
                v = cs[0].as_long(); v = v - (1 << 64) if v >> 63 else v
                return PL.scale(self.bv_poly(cs[1]), v)
        if k == z3.Z3_OP_BSHL:
            cs = t.children()
            if z3.is_bv_value(cs[1]): return PL.scale(self.bv_poly(cs[0]), 1 << cs[1].as_long())
        if k == z3.Z3_OP_CONCAT:      # simplified shl: concat(extract, 0..)
            cs = t.children()
            if z3.is_bv_value(cs[-1]) and cs[-1].as_long() == 0 and len(cs) == 2:
                x = cs[0]
                if x.decl().kind() == z3.Z3_OP_EXTRACT and x.children()[0].size() == 64 and x.params()[1] == 0:
                    return PL.scale(self.bv_poly(x.children()[0]), 1 << cs[1].size())
        self._keep(t)
        return atom(t)
    def copy_const(self, st, dst, src, n):
        so = st.mem[src.obj]; do = st.mem[dst.obj]
        soff, doff = src.off, dst.off
        if so.stride is None and do.stride is None and not isinstance(soff, Poly) and not isinstance(doff, Poly):
            soff, doff = int(soff), int(doff)
            if n <= 4096:
                items = []
                ov = sorted(self.overl(so, soff, n))
                cov = []
                for c in ov:
                    csz, cty, cv = so.cells[c]
                    if c >= soff and c + csz <= soff + n: items.append((c - soff, csz, cty, cv)); cov.append((c - soff, c - soff + csz))
                    else:
                        for k in range(csz):
                            if soff <= c + k < soff + n:
                                piece = cv if isinstance(cv, tuple) and cv[0] == "piece" else (("lazy", cv[1], PL.add(cv[2], k)) if isinstance(cv, tuple) and cv[0] == "lazy" else ("piece", cv, cty, k))
                                items.append((c + k - soff, 1, IntTy(8), piece)); cov.append((c + k - soff, c + k - soff + 1))
                # gaps: lazy reference to the source's default content
                pos = 0; gaps = []
                for a, b in sorted(cov):
                    if a > pos: gaps.append((pos, a))
                    pos = max(pos, b)
                if pos < n: gaps.append((pos, n))
                snap = None
                for a, b in gaps:
                    if so.dflt[0] == "zero" and so.kind != "x": items.append((a, b - a, None, ("zfill",)))
                    else:
                        if snap is None: snap = so.clone(); snap.cells = {}
                        items.append((a, b - a, IntTy(8 * (b - a)) if b - a in (1, 2, 4, 8) else ir.Ty("array", b - a, IntTy(8)), ("lazy", snap, soff + a)))
                d = st.wobj(do.id)
                self.clear_cells(d, doff, n)
                for a, sz, ty, v in items:
                    if isinstance(v, tuple) and v == ("zfill",) :
                        for k in range(a, a + sz): d.cells[doff + k] = (1, IntTy(8), 0)
                    else: d.cells[doff + a] = (sz, ty, v)
                self.log_write(st, d, ("cell", doff, n))
                return
        # element from/to a stride object, or big block
        snap = so.clone() if so.stride is None else self.snap(so)
        if do.stride is None and not isinstance(doff, Poly):
            d = st.wobj(do.id); self.clear_cells(d, int(doff), n)
            d.cells[int(doff)] = (n, ir.Ty("array", n, IntTy(8)), ("lazy", snap, soff))
            self.log_write(st, d, ("cell", int(doff), n)); return
        d = st.wobj(do.id)
        if d.stride is None: self.to_stride(st, d, doff, n if n <= 64 else 1)
        fo = self.fo_of(d, doff)
        if fo is not None and fo + n <= d.stride:
            d.top = Layer("st", (doff, n, ir.Ty("array", n, IntTy(8)), ("lazy", snap, soff)), d.top)
            self.log_write(st, d, ("arr", fo, n))
        else:
            d.top = Layer("cp", (doff, n, snap, soff), d.top)
            self.log_write(st, d, ("arr", None, 0))
    def clear_cells(self, d, off, n):
        for c in self.overl(d, off, n) if n <= 64 else [c for c in d.cells if c < off + n and c + d.cells[c][0] > off]:
            csz, cty, cv = d.cells.pop(c)
            for k in range(csz):
                if not (off <= c + k < off + n):
                    pc = cv if isinstance(cv, tuple) and cv[0] == "piece" else (("lazy", cv[1], PL.add(cv[2], k)) if isinstance(cv, tuple) and cv[0] == "lazy" else ("piece", cv, cty, k))
                    d.cells[c + k] = (1, IntTy(8), pc)
    def snap(self, o):
        s = o.clone(); return s
    def copy_range(self, st, dst, src, n):
        so = st.mem[src.obj]; do = st.wobj(dst.obj)
        if so.stride is None and do.stride is None:
            s = (so.tag or {}).get("elem") or (do.tag or {}).get("elem") or 1
            so = st.wobj(src.obj); self.force_stride(st, so, s)
            if do.id != so.id: self.force_stride(st, do, s)
        if do.stride is None: self.force_stride(st, do, so.stride)
        if so.stride is None:
            so = st.wobj(src.obj); self.force_stride(st, so, do.stride)
        snap = self.snap(st.mem[src.obj])
        do = st.wobj(dst.obj)
        do.top = Layer("cp", (dst.off, n, snap, src.off), do.top)
        self.log_write(st, do, ("arr", None, 0))
    def force_stride(self, st, o, s):
        o.stride = s
        for c in sorted(o.cells):
            csz, cty, cv = o.cells[c]
            o.top = Layer("st", (c, csz, cty, cv), o.top)
        o.cells = {}
    def memset(self, st, dst, byte, n):
        dst = self.toptr(st, dst)
        n = self.U(st, self.unpd(st, n, 64), 64)
        if isinstance(n, int) and n == 0: return
        byte = self.U(st, byte, 8)
        if isinstance(n, int):
            o = self.bounds(st, dst, n, "memset in " + self.shortfn(st))
            if o.stride is None and not isinstance(dst.off, Poly):
                d = st.wobj(o.id)
                if n == o.size and dst.off == 0 and byte == 0:
                    d.cells = {}; d.dflt = ("zero",); self.log_write(st, d, ("cell", 0, n)); return
                if n <= 4096:
                    self.clear_cells(d, int(dst.off), n)
                    for k in range(n): d.cells[int(dst.off) + k] = (1, IntTy(8), byte)
                    self.log_write(st, d, ("cell", int(dst.off), n)); return
            nn = n
        else:
            nn = n if self.mode == "int" else self.off_of(n)
            if dst.obj is None or isinstance(dst.obj, tuple):
                self.oblige_cond(st, self.zi(n) == 0, "memory-safety:memset:null-pointer", "mem"); return
            o = st.mem[dst.obj]
            if o.size is not None and self.o["mem_check"]:
                if self.mode == "int": c = z3.Or(PL.to_int(nn) == 0, z3.And(PL.to_int(dst.off) >= 0, PL.to_int(PL.sub(PL.sub(o.size, dst.off), nn)) >= 0))
                else: c = z3.And(z3.ULE(PL.to_bv(dst.off), PL.to_bv(o.size)), z3.ULE(PL.to_bv(nn), PL.to_bv(o.size) - PL.to_bv(dst.off)))
                self.oblige_cond(st, c, f"memory-safety:memset in {self.shortfn(st)}:bounds", "mem")
        d = st.wobj(o.id)
        if PL.eqsyn(nn, d.size) and PL.eqsyn(dst.off, 0) and byte == 0 and d.kind != "sym":
            d.top, d.cells, d.dflt = None, {}, ("zero",)
            self.log_write(st, d, ("arr", None, 0)); 
            return
        if d.stride is None: self.force_stride(st, d, (d.tag or {}).get("elem") or 1)
        d.top = Layer("fill", (dst.off, nn, byte), d.top)
        self.log_write(st, d, ("arr", None, 0))

    # ---------------------------------------------------------------- globals & constants
    def glob(self, st, name):
        if name in self.m.aliases: return self.const(st, PTR, self.m.aliases[name])
        if name in self.m.funcs or name in self.m.decls: return Ptr(("fn", name), 0)
        if name not in self.m.globals: raise Unsupported("global " + name)
        if name not in self.globobj:
            ty, init, const = self.m.globals[name]
            i = next(self.nobj)
            try: sz = size_of(ty)
            except Exception: sz = None
            o = Obj(i, sz, "@" + name, "glob")
            o.const = const; o.tag = {"align": 16}
            if ty.k == "array":
                e = ty
                while e.k == "array": e = e.el
                try: o.tag["elem"] = size_of(e)
                except Exception: pass
            if init is not None: o.dflt = ("init", ty, init)
            else: o.dflt = ("sym", "ext_" + name)
            self.globobj[name] = o
        o = self.globobj[name]
        if o.id not in st.mem: st.mem[o.id] = o; st.shared.add(o.id)
        return Ptr(o.id, 0)
    def init_read(self, st, ty, init, off, want):
        """read scalar `want` at byte offset off of a constant initializer"""
        sz = size_of(want)
        if init[0] == "zero": return self.zero_of(want)
        if init[0] == "undef": return self.zero_of(want)
        if ty.k == "array" or ty.k == "vec":
            es = size_of(ty.el)
            if init[0] == "str":
                bs = list(init[1][off:off + sz]); return self.from_bytes(st, bs, want)
            i = off // es
            if i < ty.n and off % es + sz <= es: return self.init_read(st, ty.el, init[1][i][1], off % es, want)
            bs = [self.init_read(st, ty, init, off + k, IntTy(8)) for k in range(sz)]
            return self.from_bytes(st, bs, want)
        if ty.k == "struct":
            for i, e in enumerate(ty.els):
                fo = field_off(ty, i)
                if fo <= off and off + sz <= fo + size_of(e): return self.init_read(st, e, init[1][i][1], off - fo, want)
            return self.zero_of(want)
        v = self.const(st, ty, init)
        if off == 0 and size_of(ty) == sz: return self.lconv(st, v, ty, want)
        return self.from_bytes(st, self.bytes_of(st, v, ty)[off:off + sz], want)
    def const(self, st, ty, v):
        k = v[0]
        if k == "int":
            if ty.k == "int" and ty.n == 1: return bool(v[1])
            return v[1]
        if k == "fp": return self.fconst(v[1], ty.k)
        if k == "null": return NULL
        if k == "undef":
            if ty.k == "vec": return [UNDEF] * ty.n
            if ty.k == "struct": return [self.const(st, e, v) for e in ty.els]
            return UNDEF
        if k == "zero":
            if ty.k == "vec": return [self.zero_of(ty.el)] * ty.n
            if ty.k == "array": return [self.const(st, ty.el, v) for _ in range(ty.n)]
            if ty.k == "struct": return [self.const(st, e, v) for e in ty.els]
            return self.zero_of(ty)
        if k == "glob": return self.glob(st, v[1])
        if k == "agg": return [self.const(st, t, x) for t, x in v[1]]
        if k == "str": return [b for b in v[1]]
        if k == "cexpr":
            if v[1] == "gep": return self.gep(st, v[2], [(t, self.const(st, t, x)) for t, x in v[3]])
            if v[1] == "cast": return self.cast(st, v[2], v[3], v[5], self.const(st, v[3], v[4]))
            if v[1] == "bin": return self.binop(st, v[2], v[3].n, self.const(st, v[3], v[4]), self.const(st, v[3], v[5]), ())
            if v[1] == "icmp": return self.icmp(st, v[2], v[3], self.const(st, v[3], v[4]), self.const(st, v[3], v[5]))
        raise Unsupported(f"constant {v}")
    def val(self, st, ty, v):
        if v[0] == "reg":
            try: return st.frames[-1].env[v[1]]
            except KeyError: raise Unsupported(f"register %{v[1]} unset in {st.frames[-1].fn.dname}")
        return self.const(st, ty, v)
    def gep(self, st, ty, args):
        p = self.toptr(st, args[0][1])
        off = p.off; t = ty; first = True
        for at, iv in args[1:]:
            if isinstance(iv, PDiff): iv = PDiff(None, iv.off) if iv.obj is None else iv
            if first: es = size_of(t); first = False
            elif t.k == "struct":
                off = PL.add(off, field_off(t, iv)); t = t.els[iv]; continue
            elif t.k in ("array", "vec"): t = t.el; es = size_of(t)
            else: raise Unsupported("gep")
            off = PL.add(off, self.idx_off(st, iv, at.n, es))
        return Ptr(p.obj, off)
    def idx_off(self, st, iv, w, es):
        if es == 0: return 0
        if isinstance(iv, PDiff) and iv.obj is None: return PL.scale(iv.off, es)
        if isinstance(iv, PDiff): iv = self.unpd(st, iv, 64)
        if isinstance(iv, Undef): raise Unsupported("undef index")
        if isinstance(iv, int):
            return (iv - (1 << w) if iv >> (w - 1) else iv) * es
        if self.mode == "int": return PL.scale(self.S(st, iv, w), es)
        t = iv if w == 64 else z3.SignExt(64 - w, iv)
        return PL.scale(self.bv_poly(t), es)

class FBits:
    """float carried as its bit pattern (no arithmetic)"""
    __slots__ = ("b",)
    def __init__(self, b): self.b = b

def short(n):
    """readable function name without template arguments and parameters"""
    out, d = [], 0
    s = n
    s = s.replace("operator<", "operator_lt").replace("operator>", "operator_gt").replace("operator->", "operator_arrow")
    for ch in s:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d <= 0:
            if ch == "(" : break
            out.append(ch)
    r = "".join(out).strip()
    return r.split(" ")[-1] if " " in r and "operator" not in r else r
