"""Library contracts for libstdc++ containers and algorithms (assumed, listed in the evidence)."""
import re, z3
import ir, poly as PL
from poly import Poly, atom, interval
from ir import IntTy, PTR, FLOAT, DOUBLE, size_of
from engine import *
from execu import HANDLED, INLINE
from lib import model, TABLE

SCALAR = {"unsigned long": IntTy(64), "long": IntTy(64), "unsigned long long": IntTy(64), "long long": IntTy(64), "unsigned int": IntTy(32), "int": IntTy(32), "unsigned short": IntTy(16), "short": IntTy(16),
          "unsigned char": IntTy(8), "signed char": IntTy(8), "char": IntTy(8), "std::byte": IntTy(8), "bool": IntTy(8), "float": FLOAT, "double": DOUBLE}

def vec_elem(d):
    """element type text of the leading std::vector<...> in a demangled name"""
    i = d.find("std::vector<"); j = i + len("std::vector<"); n = 1; k = j; first = None
    while k < len(d) and n:
        c = d[k]
        if c == "<": n += 1
        elif c == ">": n -= 1
        elif c == "," and n == 1 and first is None: first = k
        k += 1
    return d[j:first if first is not None else k - 1].strip()

def nbytes(e, st, n, es):
    """element count (value) -> byte offset polynomial"""
    n = e.U(st, e.unpd(st, n, 64), 64)
    if isinstance(n, int): return n * es
    return PL.scale(n if e.mode == "int" else e.off_of(n), es)

def inrange(e, st, off, lo, nb):
    """lo <= off < lo + nb, as a formula"""
    if e.mode == "int":
        a = PL.sub(off, lo); b = PL.sub(PL.add(lo, nb), off)
        f = lambda p, s: (p > 0 if s else p >= 0) if not isinstance(p, Poly) else (PL.to_int(p) > 0 if s else PL.to_int(p) >= 0)
        return And(zb(f(a, False)), zb(f(b, True)))
    r = PL.sub(off, lo)
    return z3.ULT(PL.to_bv(r) if isinstance(r, Poly) else z3.BitVecVal(int(r) & (2**64-1), 64), PL.to_bv(nb) if isinstance(nb, Poly) else z3.BitVecVal(int(nb), 64))

def const_layer(e, o, lo, nb, es, ty, val):
    ly = Layer("fn", None, o.top)
    def f(eng, st, ob, off, want):
        c = inrange(eng, st, off, lo, nb)
        c = simp_bool(z3.simplify(c) if z3.is_expr(c) else c)
        if c is False or (c is not True and eng.prove(st, Not(c))): return None
        sz = size_of(want)
        if sz == es: v = eng.lconv(st, val, ty, want)
        else:
            bs = eng.bytes_of(st, val, ty)
            if sz < es:
                r = PL.sub(off, lo)
                k = None
                if not isinstance(r, Poly): k = r % es
                else:
                    cst = int(r.m.get((), 0)); body = PL.sub(r, cst)
                    if PL.divisible(body, es): k = cst % es
                if k is None or k + sz > es: raise Unsupported("unaligned read of filled memory")
                v = eng.from_bytes(st, bs[k:k + sz], want)
            else:
                if sz % es: raise Unsupported("unaligned read of filled memory")
                if want.k == "vec":
                    v = [eng.lconv(st, val, ty, want.el) for _ in range(want.n)] if size_of(want.el) == es else eng.from_bytes(st, bs * (sz // es), want)
                else: v = eng.from_bytes(st, bs * (sz // es), want)
        if c is True or eng.prove(st, c): return v
        return eng.ite(st, c, v, eng.rd_stride(st, ob, ly.below, off, want), want)
    ly.a = f
    return ly

def fill(e, st, dst, n, ty, val):
    """elements [0, n) at dst := val"""
    es = size_of(ty)
    dst = e.toptr(st, dst)
    nb = nbytes(e, st, n, es)
    if not isinstance(nb, Poly) and nb <= 0: return
    if dst.obj is None:
        e.oblige_cond(st, e.zi(e.U(st, n, 64)) == 0, "memory-safety:fill of a null range", "mem"); return
    o = st.mem[dst.obj]
    if not o.alive: e.oblige(st, False, "memory-safety:use-after-free in fill", "mem"); raise PathEnd()
    if o.size is not None and e.o["mem_check"]:
        if not isinstance(nb, Poly) and not isinstance(dst.off, Poly) and not isinstance(o.size, Poly): 
            if dst.off < 0 or dst.off + nb > o.size: e.oblige(st, False, f"memory-safety:fill in {e.shortfn(st)}:bounds", "mem"); raise PathEnd()
        else:
            Z = (lambda p: PL.to_int(p) if isinstance(p, Poly) else z3.IntVal(int(p))) if e.mode == "int" else (lambda p: PL.to_bv(p) if isinstance(p, Poly) else z3.BitVecVal(int(p) & (2**64-1), 64))
            if e.mode == "int": c = z3.Or(Z(nb) == 0, z3.And(Z(dst.off) >= 0, Z(PL.sub(PL.sub(o.size, dst.off), nb)) >= 0))
            else: c = z3.And(z3.ULE(Z(dst.off), Z(o.size)), z3.ULE(Z(nb), Z(o.size) - Z(dst.off)))
            e.oblige_cond(st, c, f"memory-safety:fill in {e.shortfn(st)}:bounds", "mem")
    if not isinstance(nb, Poly) and not isinstance(dst.off, Poly) and o.stride is None and nb <= 4096:
        for k in range(0, nb, es): e.store(st, ty, val, Ptr(dst.obj, dst.off + k))
        return
    d = st.wobj(dst.obj)
    if d.stride is None: e.force_stride(st, d, (d.tag or {}).get("elem") or es)
    d.top = const_layer(e, d, dst.off, nb, es, ty, val)
    e.log_write(st, d, ("arr", None, 0))

def itval(e, st, v):
    """iterator argument: a pointer value, or a pointer to a __normal_iterator"""
    return e.toptr(st, v)

FILL = "std::fill / fill_n / uninitialized_fill over scalars"
@model(r"std::__fill_a1<(unsigned long|unsigned int|unsigned char|unsigned short|int|float|double|long|char|signed char)\*, ", FILL)
def _fill_a1(e, st, ins, name, a):
    d = e.dem.get(name, name)
    t = re.search(r"std::__fill_a1<([\w ]+)\*, ([\w ]+)>", d)
    if not t or t.group(1) != t.group(2): return INLINE
    ty = SCALAR[t.group(1)]; val = e.load(st, ty, e.toptr(st, a[2]))
    p, q = e.toptr(st, a[0]), e.toptr(st, a[1])
    if p.obj != q.obj: return INLINE
    nb = PL.sub(q.off, p.off); es = size_of(ty)
    if not isinstance(nb, Poly) and nb <= 0: return None
    fill_bytes(e, st, p, nb, ty, val); return None
def fill_bytes(e, st, p, nb, ty, val):
    es = size_of(ty)
    if not isinstance(nb, Poly): return fill(e, st, p, nb // es, ty, val)
    q = PL.exact_div(nb, es) if PL.divisible(nb, es) else None
    if q is None: raise Unsupported("fill of a partial element")
    n = q if e.mode == "int" else PL.to_bv(q)
    if e.mode == "int":
        if not e.prove(st, PL.to_int(q) >= 0): raise Unsupported("fill of a possibly negative range")
    fill(e, st, p, n, ty, val)
@model(r"^_ZNKSt6ranges11__fill_n_fnclIyTkSt15output_iterator", FILL)
def _rfilln(e, st, ins, name, a):
    m = re.search(r"normal_iteratorIP([mjhtifdlac])St6vector", name)
    k = {"m": "unsigned long", "j": "unsigned int", "h": "unsigned char", "t": "unsigned short", "i": "int", "f": "float", "d": "double", "l": "long", "a": "signed char", "c": "char"}
    if not m: return INLINE
    ty = SCALAR[k[m.group(1)]]; val = e.load(st, ty, e.toptr(st, a[3])); p = e.toptr(st, a[1])
    n = e.unpd(st, a[2], 64) if not isinstance(a[2], PDiff) else a[2]
    if isinstance(n, PDiff): nb = PL.scale(n.off, 1); raise Unsupported("pdiff")
    fill(e, st, p, n, ty, val)
    nb = nbytes(e, st, n, size_of(ty))
    return Ptr(p.obj, PL.add(p.off, nb))

def vec_parts(e, st, v):
    v = e.toptr(st, v)
    b = e.toptr(st, e.load(st, PTR, v)); f = e.toptr(st, e.load(st, PTR, Ptr(v.obj, PL.add(v.off, 8))))
    return v, b, f
def vec_set(e, st, v, p, nb):
    e.store(st, PTR, p, v); q = Ptr(p.obj, PL.add(p.off, nb)) if p.obj is not None else NULL
    e.store(st, PTR, q, Ptr(v.obj, PL.add(v.off, 8))); e.store(st, PTR, q, Ptr(v.obj, PL.add(v.off, 16)))
def fresh_filled(e, st, n, ty, val):
    """a new storage object of n elements, all val; returns (pointer, bytes)"""
    es = size_of(ty); nb = nbytes(e, st, n, es)
    if not isinstance(nb, Poly) and nb == 0: return NULL, 0
    if not isinstance(nb, Poly) and nb <= 256:
        o = e.new_obj(st, nb, "vec", "heap", ("uninit",)); o.tag["elem"] = es
        for k in range(0, nb, es): e.store(st, ty, val, Ptr(o.id, k))
        return Ptr(o.id, 0), nb
    zero = val == 0 if isinstance(val, int) else False
    o = e.new_obj(st, nb, "vec", "heap", ("zero",) if zero else ("uninit",), es); o.tag["elem"] = es
    if not zero: o.top = const_layer(e, o, 0, nb, es, ty, val)
    e.assumed["operator new never fails"] = 1
    return Ptr(o.id, 0), nb
def kill(e, st, p):
    if p.obj is not None and p.obj in st.mem:
        o = st.wobj(p.obj); 
        if st.wlog is not None and o.id <= st.wlog["mark"]: raise Unsupported("deallocation of outer memory in a loop")
        o.alive = False
VL = "std::vector sized construction / resize / assign"
VT = r"std::vector<(unsigned long|unsigned int|unsigned char|unsigned short|int|float|double|long|char|signed char|std::byte|unsigned long long), .*>::"
@model(r"^" + VT + r"vector\(unsigned long, ", VL)
def _vec_ctor(e, st, ins, name, a):
    d = e.dem.get(name, name); t = vec_elem(d); ty = SCALAR.get(t)
    if ty is None: return INLINE
    val = 0 if ty.k == "int" else e.zero_of(ty)
    if re.search(r"::vector\(unsigned long, %s const&" % re.escape(t), d): val = e.load(st, ty, e.toptr(st, a[2]))
    p, nb = fresh_filled(e, st, a[1], ty, val)
    v = e.toptr(st, a[0]); vec_set(e, st, v, p, nb); return None
@model(r"^" + VT + r"assign\(unsigned long, ", VL)
def _vec_assign(e, st, ins, name, a):
    d = e.dem.get(name, name); ty = SCALAR.get(vec_elem(d))
    if ty is None: return INLINE
    val = e.load(st, ty, e.toptr(st, a[2]))
    v, b, f = vec_parts(e, st, a[0]); kill(e, st, b)
    p, nb = fresh_filled(e, st, a[1], ty, val); vec_set(e, st, v, p, nb); return None
@model(r"^" + VT + r"resize\(unsigned long", VL)
def _vec_resize(e, st, ins, name, a):
    d = e.dem.get(name, name); ty = SCALAR.get(vec_elem(d))
    if ty is None: return INLINE
    es = size_of(ty); val = 0 if ty.k == "int" else e.zero_of(ty)
    if len(a) > 2: val = e.load(st, ty, e.toptr(st, a[2]))
    v, b, f = vec_parts(e, st, a[0])
    if b.obj is None:
        p, nb = fresh_filled(e, st, a[1], ty, val); vec_set(e, st, v, p, nb); return None
    old = PL.sub(f.off, b.off); nb = nbytes(e, st, a[1], es)
    if PL.eqsyn(old, nb) is True: return None
    if e.mode == "int": c = (lambda p: p <= 0 if not isinstance(p, Poly) else PL.to_int(p) <= 0)(PL.sub(nb, old))
    else:
        Z = lambda p: PL.to_bv(p) if isinstance(p, Poly) else z3.BitVecVal(int(p), 64)
        c = z3.ULE(Z(nb), Z(old))
    c = simp_bool(c) if isinstance(c, bool) else c
    if c is True or (c is not False and e.prove(st, c)):      # shrink
        e.store(st, PTR, Ptr(b.obj, PL.add(b.off, nb)), Ptr(v.obj, PL.add(v.off, 8))); return None
    if c is not False and not e.prove(st, Not(c)): raise Fork([(c, None), (Not(c), None)])
    # grow: fresh storage, old elements kept
    src = st.mem[b.obj]
    o = e.new_obj(st, nb, "vec", "heap", ("uninit",), es); o.tag["elem"] = es
    o.top = const_layer(e, o, 0, nb, es, ty, val)
    e.copy_range(st, Ptr(o.id, 0), b, old) if isinstance(old, Poly) else (e.copy_const(st, Ptr(o.id, 0), b, old) if old else None)
    kill(e, st, b)
    vec_set(e, st, v, Ptr(o.id, 0), nb)
    e.assumed["operator new never fails"] = 1
    return None
# these must win over the growth-in-place models
_n = [t for t in TABLE if t[2] in (VL, FILL)]
TABLE[:] = _n + [t for t in TABLE if t not in _n]
