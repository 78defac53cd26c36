"""C library contracts for fixed-width text: hexadecimal printf/strtoull (mode=bv)."""
import re, z3
import poly as PL
from ir import IntTy, size_of
from engine import *
from execu import HANDLED, INLINE
from lib import model, TABLE

def hexchar(e, v):
    """4-bit value (BitVec 8 term) -> lower-case character"""
    return z3.If(z3.ULT(v, 10), v + 48, v + 87)

@model(r"^snprintf$", "snprintf of \"%0Nlx\" (N = number of digits of the type)")
def _snprintf(e, st, ins, name, a):
    fmt = e.cstr_at(st, a[2])
    m = re.fullmatch(r"%0(\d+)(l|ll)?x", fmt if isinstance(fmt, str) else fmt.decode())
    if not m or e.mode != "bv": raise Unsupported("snprintf format " + repr(fmt))
    n, w = int(m.group(1)), 64 if m.group(2) else 32
    if n * 4 != w: raise Unsupported("snprintf format " + repr(fmt))
    cap = a[1]
    if not isinstance(cap, int): raise Unsupported("snprintf with a symbolic buffer size")
    v = e.zi(e.U(st, a[3], w), w); p = e.toptr(st, a[0])
    for k in range(min(n, cap - 1)):
        hi = w - 4 * k
        c = z3.simplify(hexchar(e, z3.ZeroExt(4, z3.Extract(hi - 1, hi - 4, v))))
        e.store(st, IntTy(8), c, Ptr(p.obj, PL.add(p.off, k)))
    e.store(st, IntTy(8), 0, Ptr(p.obj, PL.add(p.off, min(n, cap - 1))))
    return n

@model(r"^__errno_location$", "errno")
def _errno(e, st, ins, name, a):
    if getattr(e, "errno_obj", None) is None or e.errno_obj not in st.mem:
        o = e.new_obj(st, 4, "errno", "heap", ("zero",)); e.errno_obj = o.id
    return Ptr(e.errno_obj, 0)

@model(r"^(__isoc23_|__isoc99_)?strtou?ll?$", "strtoul/strtoull of exactly 16 hexadecimal digits")
def _strtoull(e, st, ins, name, a):
    if e.mode != "bv" or a[2] != 16: raise Unsupported("strtoull")
    p = e.toptr(st, a[0]); v = None
    for k in range(16):
        c = e.zi(e.load(st, IntTy(8), Ptr(p.obj, PL.add(p.off, k))), 8)
        dig = z3.And(z3.UGE(c, 48), z3.ULE(c, 57)); low = z3.And(z3.UGE(c, 97), z3.ULE(c, 102))
        if not e.prove(st, z3.Or(dig, low)): raise Unsupported("strtoull of text that may contain other characters than lower-case hexadecimal digits")
        d = z3.Extract(3, 0, z3.If(dig, c - 48, c - 87)); v = d if v is None else z3.Concat(v, d)
    t = e.load(st, IntTy(8), Ptr(p.obj, PL.add(p.off, 16)))
    if t != 0: raise Unsupported("strtoull of more than 16 digits")
    ep = e.toptr(st, a[1])
    if ep.obj is not None:
        from ir import PTR
        e.store(st, PTR, Ptr(p.obj, PL.add(p.off, 16)), ep)
    return z3.simplify(v)

@model(r"^std::(__cxx11::)?to_string\((unsigned )?(int|long|long long)\)$", "std::to_string of integers (any text of 1 to 20 characters; used in messages)")
def _tostr(e, st, ins, name, a):
    from ir import PTR
    r = e.toptr(st, a[0]); o = e.new_obj(st, 32, "digits", "heap", ("sym", f"digits!{fresh_id()}"))
    n = e.new_int(st, 64, "digits"); z = e.zi(n, 64)
    st.pc.append(z3.And(z >= 1, z <= 20) if e.mode == "int" else z3.And(z3.UGE(z, 1), z3.ULE(z, 20)))
    e.store(st, PTR, Ptr(o.id, 0), r); e.store(st, IntTy(64), n, Ptr(r.obj, PL.add(r.off, 8))); e.store(st, IntTy(64), 31, Ptr(r.obj, PL.add(r.off, 16)))
