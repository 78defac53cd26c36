"""Contracts of std::istream / std::ostream / file streams over ghost byte sequences, of std::filesystem::path and of a few file
system calls. A stream is: position, size, data pointer and open flag (kept in unused words of its ios_base part), and the real
iostate word. Reads deliver min(wanted, available) bytes and set eof/fail as the standard says; writes append. With
vc::io_faults() an open may fail and a write may stop short (badbit)."""
import re, z3
import poly as PL
from poly import Poly
from ir import IntTy, PTR
from engine import *
from execu import HANDLED, INLINE
from lib import model, TABLE, _noop
import lib
I64, I32, I8 = IntTy(64), IntTy(32), IntTy(8)
LBL = "iostream operations follow the C++ standard (ghost byte sequences)"
BAD, EOFB, FAIL = 1, 2, 4
IOS = {"ifstream": 256, "ofstream": 248, "fstream": 264, "istream": 16, "ostream": 8}
POS, SIZE, DATA, OPEN = 64, 72, 80, 88

def P(p, k): return Ptr(p.obj, PL.add(p.off, k))
def ios_of(e, st, this):
    t = e.toptr(st, this); vp = e.toptr(st, e.load(st, PTR, t)); k = e.load(st, I64, P(vp, -24))
    return P(t, k)
def get(e, st, io, f): return e.unpd(st, e.load(st, PTR if f == DATA else I64, P(io, f)), 64) if f != DATA else e.toptr(st, e.load(st, PTR, P(io, f)))
def put(e, st, io, f, v): e.store(st, PTR if f == DATA else I64, v, P(io, f))
def state(e, st, io): return e.load(st, I32, P(io, 32))
def setstate(e, st, io, v): e.store(st, I32, v, P(io, 32))
def size_tm(e, v): return v if e.mode == "int" else (e.off_of(v) if not isinstance(v, int) else v)
def cond(e, st, c):
    """decide a condition: fork when open"""
    c = c if isinstance(c, bool) else simp_bool(c)
    if isinstance(c, bool): return c
    if e.prove(st, c): return True
    if e.prove(st, Not(c)): return False
    raise Fork([(c, None), (Not(c), None)])
def isint(e, st, v, w=32):
    if isinstance(v, int): return v
    z = e.zi(v, w)
    for k in range(8):
        if e.prove(st, z == k): return k
    alts = [(z == k, None) for k in range(8) if True]
    raise Fork(alts)
def stateint(e, st, io): return isint(e, st, state(e, st, io))
def make(e, st, this, kind):
    t = e.toptr(st, this); off = IOS[kind]
    vt = e.new_obj(st, 64, "vtable:" + kind, "heap"); e.store(st, I64, off, Ptr(vt.id, 0)); e.store(st, PTR, Ptr(vt.id, 24), t)
    if kind in ("ifstream", "istream", "fstream"): e.store(st, I64, 0, P(t, 8))
    io = P(t, off)
    for f in (POS, SIZE, OPEN): put(e, st, io, f, 0)
    put(e, st, io, DATA, NULL); setstate(e, st, io, 0)
    return io
def text_of(e, st, a):
    """a path argument: C string, std::string or std::filesystem::path; None when not constant"""
    p = e.toptr(st, a)
    try:
        s = e.cstr_at(st, p); 
        if s.isprintable() and s: return s
    except Exception: pass
    return None
def strtext(e, st, a):
    try:
        p = e.toptr(st, e.load(st, PTR, e.toptr(st, a))); n = e.unpd(st, e.load(st, I64, P(e.toptr(st, a), 8)), 64)
        if not isinstance(n, int) or n > 300: return None
        bs = [e.load(st, I8, P(p, k)) for k in range(n)]
        return bytes(bs).decode("latin1") if all(isinstance(b, int) for b in bs) else None
    except Unsupported: return None
def lookup(st, name):
    fs = st.ghost.get("files", ())
    if name is not None:
        for n, p, k in reversed(fs):
            if n == name: return n, p, k
        return None
    return fs[-1] if fs else None
def noloop(st, what):
    if st.wlog is not None: raise Unsupported(what + " inside a loop")
def faults(st): return st.ghost.get("io_faults", False)
def chance(e, st, what):
    """an arbitrary outcome; named by its position on the path, so that a re-executed instruction sees the same one"""
    n = st.ghost.get("chances", 0); r = cond(e, st, z3.Bool(f"{what}!c{n}")); st.ghost["chances"] = n + 1
    return r
def do_open(e, st, io, kind, name, mode):
    noloop(st, "opening a file")
    if faults(st):
        if not chance(e, st, "open_ok"): setstate(e, st, io, FAIL); return
    mode = int(mode) if isinstance(mode, int) else 0
    put(e, st, io, OPEN, 1); put(e, st, io, POS, 0); setstate(e, st, io, 0)
    f = lookup(st, name)
    if kind == "ifstream":
        if f is None: raise Unsupported("a file without ghost contents is read")
        put(e, st, io, DATA, f[1]); put(e, st, io, SIZE, f[2])
        if mode & 2: put(e, st, io, POS, f[2])             # std::ios::ate
    else:
        o = e.new_obj(st, None, "file", "heap", ("uninit",)); put(e, st, io, DATA, Ptr(o.id, 0)); put(e, st, io, SIZE, 0)
        if mode & 1 and f is not None:                     # append
            e.memcpy(st, Ptr(o.id, 0), f[1], f[2]); put(e, st, io, POS, f[2])
        st.ghost["outs"] = tuple(x for x in st.ghost.get("outs", ()) if x[0] != o.id) + ((o.id, name),)
        publish(e, st, io)
def publish(e, st, io):
    """what an output file holds now"""
    d = get(e, st, io, DATA)
    nm = [n for i, n in st.ghost.get("outs", ()) if i == d.obj]
    if not nm: return
    noloop(st, "closing a file")
    fs = tuple(x for x in st.ghost.get("files", ()) if x[1].obj != d.obj)
    st.ghost["files"] = fs + ((nm[0], d, length(e, st, io)),)
def length(e, st, io):
    """bytes written so far: the position, or the high-water mark once seekp was used"""
    return get(e, st, io, SIZE) if (io.obj, str(io.off)) in st.ghost.get("seeked", ()) else get(e, st, io, POS)
ST = r"^std::basic_(ifstream|ofstream)<char, std::char_traits<char> ?>::"
def kind_of(e, name): return re.match(r"std::basic_(\w+)<", e.dem.get(name, name)).group(1)
def argname(e, st, d, a):
    return text_of(e, st, a) if re.search(r"(basic_\w+|open)\(char const\*", d) else strtext(e, st, a)
@model(ST + r"basic_\w+(<[^()]*>)?\(", LBL)
def _fs_ctor(e, st, ins, name, a):
    d = e.dem.get(name, name); k = kind_of(e, name); io = make(e, st, a[0], k)
    if len(a) > 1: do_open(e, st, io, k, argname(e, st, d, a[1]), a[2] if len(a) > 2 else 0)
@model(r"^(void )?" + ST[1:] + r"open(<[^()]*>)?\(|^std::enable_if_t?<.*" + r"std::basic_(ifstream|ofstream)<.*>::open<", LBL)
def _fs_open(e, st, ins, name, a):
    d = e.dem.get(name, name); k = "ofstream" if "ofstream" in d else "ifstream"
    do_open(e, st, ios_of(e, st, a[0]), k, argname(e, st, d, a[1]), a[2] if len(a) > 2 else 0)
@model(ST + r"is_open\(\)", LBL)
def _fs_isopen(e, st, ins, name, a):
    return e.icmp(st, "ne", I64, get(e, st, ios_of(e, st, a[0]), OPEN), 0)
@model(ST + r"close\(\)", LBL)
def _fs_close(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); publish(e, st, io); put(e, st, io, OPEN, 0)
@model(ST + r"~basic_\w+\(\)", LBL)
def _fs_dtor(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); o = get(e, st, io, OPEN)
    if not (isinstance(o, int) and o == 0): publish(e, st, io)
B = r"^std::basic_ios<char, std::char_traits<char> ?>::"
def flag(mask, neg):
    def g(e, st, ins, name, a):
        s = stateint(e, st, e.toptr(st, a[0])); r = (s & mask) != 0
        return int(r != neg)
    return g
model(B + r"good\(\) const", LBL)(flag(7, True)); model(B + r"eof\(\) const", LBL)(flag(EOFB, False))
model(B + r"fail\(\) const", LBL)(flag(BAD | FAIL, False)); model(B + r"bad\(\) const", LBL)(flag(BAD, False))
model(B + r"operator bool\(\) const", LBL)(flag(BAD | FAIL, True)); model(B + r"operator!\(\) const", LBL)(flag(BAD | FAIL, False))
@model(B + r"rdstate\(\) const", LBL)
def _rdstate(e, st, ins, name, a): return state(e, st, e.toptr(st, a[0]))
@model(B + r"clear\(", LBL)
def _clear(e, st, ins, name, a): setstate(e, st, e.toptr(st, a[0]), a[1])
@model(B + r"setstate\(", LBL)
def _setstate(e, st, ins, name, a):
    io = e.toptr(st, a[0]); setstate(e, st, io, stateint(e, st, io) | isint(e, st, a[1]))
@model(B + r"exceptions\(", "streams that throw on error report it (not taken)")
def _exc(e, st, ins, name, a): put(e, st, e.toptr(st, a[0]), 96, 1) if len(a) > 1 else None
def sentry(e, st, io):
    s = stateint(e, st, io)
    if s: setstate(e, st, io, s | FAIL)
    return s == 0
IS = r"^std::(basic_istream<char, std::char_traits<char> ?>|istream)::"
OS = r"^std::(basic_ostream<char, std::char_traits<char> ?>|ostream)::"
@model(IS + r"read\(", LBL)
def _read(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); t = e.toptr(st, a[0]); n = e.unpd(st, a[2], 64)
    if not sentry(e, st, io): e.store(st, I64, 0, P(t, 8)); return a[0]
    pos, size, d = get(e, st, io, POS), get(e, st, io, SIZE), get(e, st, io, DATA)
    avail = e.binop(st, "sub", 64, size, pos, ())
    dst = e.toptr(st, a[1])
    neg = e.icmp(st, "slt", I64, n, 0)
    if neg is not False and (neg is True or cond(e, st, neg)): e.store(st, I64, 0, P(t, 8)); return a[0]
    if cond(e, st, e.icmp(st, "ule", I64, n, avail)):
        if not (isinstance(n, int) and n == 0): copy(e, st, dst, P(d, offv(e, st, pos)), n)
        e.store(st, I64, n, P(t, 8)); put(e, st, io, POS, e.binop(st, "add", 64, pos, n, ()))
    else:
        k = avail
        havoc_dst(e, st, dst, P(d, offv(e, st, pos)), k)
        e.store(st, I64, k, P(t, 8)); put(e, st, io, POS, size); setstate(e, st, io, EOFB | FAIL)
    return a[0]
def offv(e, st, v): return e.U(st, v, 64) if e.mode == "int" else (v if isinstance(v, int) else e.bv_poly(v))
def copy(e, st, dst, src, n): e.memcpy(st, dst, src, n if isinstance(n, int) else n)
def havoc_dst(e, st, dst, src, k):
    """a short read: the bytes that were there"""
    if isinstance(k, int) and k == 0: return
    copy(e, st, dst, src, k)
@model(IS + r"gcount\(\) const", LBL)
def _gcount(e, st, ins, name, a): return e.load(st, I64, P(e.toptr(st, a[0]), 8))
@model(IS + r"tellg\(\)", LBL)
def _tellg(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); ok = sentry(e, st, io)
    s = stateint(e, st, io)
    v = get(e, st, io, POS) if not s & (BAD | FAIL) else ((1 << 64) - 1 if e.mode == "int" else (1 << 64) - 1)
    return [v, 0]
def seek_to(e, st, io, v):
    neg = e.icmp(st, "slt", I64, v, 0)
    if cond(e, st, neg): setstate(e, st, io, stateint(e, st, io) | FAIL); return
    put(e, st, io, POS, v)
@model(IS + r"seekg\(", LBL)
def _seekg(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); s = stateint(e, st, io); setstate(e, st, io, s & ~EOFB)
    if not sentry(e, st, io): return a[0]
    d = e.dem.get(name, name)
    if "_Ios_Seekdir" in d:
        w = isint(e, st, a[2]); base = 0 if w == 0 else get(e, st, io, POS if w == 1 else SIZE)
        v = e.binop(st, "add", 64, base, e.unpd(st, a[1], 64), ())
    else: v = e.unpd(st, a[1], 64)
    seek_to(e, st, io, v); return a[0]
@model(IS + r"peek\(\)", LBL)
def _peek(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); t = e.toptr(st, a[0]); e.store(st, I64, 0, P(t, 8))
    if not sentry(e, st, io): return (1 << 32) - 1
    pos, size, d = get(e, st, io, POS), get(e, st, io, SIZE), get(e, st, io, DATA)
    if cond(e, st, e.icmp(st, "ult", I64, pos, size)):
        return e.cast(st, "zext", I8, I32, e.load(st, I8, P(d, offv(e, st, pos))))
    setstate(e, st, io, stateint(e, st, io) | EOFB); return (1 << 32) - 1
@model(IS + r"get\(\)", LBL)
def _get(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); t = e.toptr(st, a[0]); e.store(st, I64, 0, P(t, 8))
    if not sentry(e, st, io): return (1 << 32) - 1
    pos, size, d = get(e, st, io, POS), get(e, st, io, SIZE), get(e, st, io, DATA)
    if cond(e, st, e.icmp(st, "ult", I64, pos, size)):
        put(e, st, io, POS, e.binop(st, "add", 64, pos, 1, ())); e.store(st, I64, 1, P(t, 8))
        return e.cast(st, "zext", I8, I32, e.load(st, I8, P(d, offv(e, st, pos))))
    setstate(e, st, io, EOFB | FAIL); return (1 << 32) - 1
@model(OS + r"write\(", LBL)
def _write(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); n = e.unpd(st, a[2], 64); src = e.toptr(st, a[1])
    s = stateint(e, st, io)
    if s: return a[0]
    pos, d = get(e, st, io, POS), get(e, st, io, DATA)
    o = get(e, st, io, OPEN)
    if not cond(e, st, e.icmp(st, "ne", I64, o, 0)): setstate(e, st, io, s | BAD); return a[0]
    if faults(st):
        if not chance(e, st, "write_ok"):
            setstate(e, st, io, s | BAD); return a[0]
    if isinstance(n, int) and n == 0: return a[0]
    copy(e, st, P(d, offv(e, st, pos)), src, n)
    end = e.binop(st, "add", 64, pos, n, ()); put(e, st, io, POS, end)
    if (io.obj, str(io.off)) in st.ghost.get("seeked", ()) and cond(e, st, e.icmp(st, "ult", I64, get(e, st, io, SIZE), end)): put(e, st, io, SIZE, end)
    if "outs" in st.ghost and st.wlog is None: publish(e, st, io)
    return a[0]
@model(OS + r"put\(", LBL)
def _put(e, st, ins, name, a):
    io = ios_of(e, st, a[0])
    if stateint(e, st, io): return a[0]
    pos, d = get(e, st, io, POS), get(e, st, io, DATA)
    e.store(st, I8, a[1], P(d, offv(e, st, pos))); put(e, st, io, POS, e.binop(st, "add", 64, pos, 1, ()))
    return a[0]
@model(OS + r"flush\(\)", LBL)
def _flush(e, st, ins, name, a): return a[0]
@model(OS + r"tellp\(\)", LBL)
def _tellp(e, st, ins, name, a):
    io = ios_of(e, st, a[0])
    return [get(e, st, io, POS) if not stateint(e, st, io) & (BAD | FAIL) else (1 << 64) - 1, 0]
@model(OS + r"seekp\(", LBL)
def _seekp(e, st, ins, name, a):
    io = ios_of(e, st, a[0])
    if stateint(e, st, io) & (BAD | FAIL): return a[0]
    noloop(st, "seekp")
    if (io.obj, str(io.off)) not in st.ghost.get("seeked", ()): put(e, st, io, SIZE, get(e, st, io, POS)); st.ghost["seeked"] = st.ghost.get("seeked", ()) + ((io.obj, str(io.off)),)
    d = e.dem.get(name, name)
    if "_Ios_Seekdir" in d:
        w = isint(e, st, a[2]); base = 0 if w == 0 else get(e, st, io, POS if w == 1 else SIZE)
        v = e.binop(st, "add", 64, base, e.unpd(st, a[1], 64), ())
    else: v = e.unpd(st, a[1], 64)
    seek_to(e, st, io, v); return a[0]
# ---- std::filesystem
model(r"^std::filesystem::__cxx11::path::_M_split_cmpts\(", "std::filesystem::path (text only)")(_noop)
model(r"^std::filesystem::__cxx11::path::_List::_Impl_deleter::operator\(\)", "std::filesystem::path (text only)")(_noop)
@model(r"^std::filesystem::__cxx11::path::_List::_List\(", "std::filesystem::path (text only)")
def _plist(e, st, ins, name, a): e.store(st, PTR, NULL, e.toptr(st, a[0]))
@model(r"^std::filesystem::(create_director|remove|rename|resize_file|permissions|copy|last_write_time)|^alaya::(\w+::)?sync_(file|directory|dir)|^alaya::platform::", "file system calls other than stream input and output succeed and change no verified state")
def _fsop(e, st, ins, name, a): return 1
@model(r"^std::filesystem::(exists|is_regular_file|is_directory|is_symlink)\(", "std::filesystem::exists/is_... (any answer; true for a file with ghost contents)")
def _exists(e, st, ins, name, a):
    try: f = lookup(st, strtext(e, st, a[0]))
    except Unsupported: f = None
    return 1 if f else e.new_int(st, 1, "exists")
@model(r"^std::filesystem::file_size\(", "std::filesystem::file_size")
def _fsize(e, st, ins, name, a):
    f = lookup(st, strtext(e, st, a[0]))
    if f is None: return e.new_int(st, 64, "file_size")
    return f[2]
# ---- harness side
def h_file(e, st, ins, name, a):
    st.ghost["files"] = st.ghost.get("files", ()) + ((e.cstr_at(st, a[0]), e.toptr(st, a[1]), e.unpd(st, a[2], 64)),)
def h_content(e, st, ins, name, a):
    f = lookup(st, e.cstr_at(st, a[0]))
    if f is None: f = lookup(st, None)
    if f is None: raise Unsupported("no such ghost file")
    e.store(st, I64, f[2], e.toptr(st, a[1])); return f[1]
def h_istream(e, st, ins, name, a):
    o = e.new_obj(st, 640, "istream", "heap"); io = make(e, st, Ptr(o.id, 0), "istream")
    put(e, st, io, DATA, e.toptr(st, a[0])); put(e, st, io, SIZE, e.unpd(st, a[1], 64)); put(e, st, io, OPEN, 1); return Ptr(o.id, 0)
def h_ostream(e, st, ins, name, a):
    o = e.new_obj(st, 640, "ostream", "heap"); io = make(e, st, Ptr(o.id, 0), "ostream")
    b = e.new_obj(st, None, "sink", "heap", ("uninit",)); put(e, st, io, DATA, Ptr(b.id, 0)); put(e, st, io, OPEN, 1); return Ptr(o.id, 0)
def h_written(e, st, ins, name, a):
    io = ios_of(e, st, a[0]); e.store(st, I64, length(e, st, io), e.toptr(st, a[1])); return get(e, st, io, DATA)
def h_faults(e, st, ins, name, a): st.ghost["io_faults"] = True
lib.h__vc_file, lib.h__vc_content, lib.h__vc_istream, lib.h__vc_ostream, lib.h__vc_written, lib.h__vc_io_faults = h_file, h_content, h_istream, h_ostream, h_written, h_faults
def empty_path(e, st, p):
    e.store(st, PTR, P(p, 16), p); e.store(st, I64, 0, P(p, 8)); e.store(st, I8, 0, P(p, 16)); e.store(st, PTR, NULL, P(p, 32))
PLBL = "the text of computed std::filesystem::paths is not modelled"
@model(r"^std::filesystem::__cxx11::path::(parent_path|filename|extension|stem|lexically_normal|root_path|relative_path)\(\) const|^std::filesystem::(absolute|canonical|weakly_canonical|current_path|temp_directory_path)\(|^std::filesystem::__cxx11::operator/\(", PLBL)
def _ppath(e, st, ins, name, a): empty_path(e, st, e.toptr(st, a[0])); return None
@model(r"^std::filesystem::__cxx11::path::(operator/=|operator\+=|replace_\w+|concat|_M_append|_M_concat|remove_filename|operator=)\(", PLBL)
def _ppathset(e, st, ins, name, a):
    d = e.dem.get(name, name)
    if name in e.m.funcs and "operator=" in d: return INLINE
    return a[0]
