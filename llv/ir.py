"""Parser for the textual LLVM IR (LLVM 18) that clang emits from /repo's real headers."""
import re

class ParseError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "els", "packed", "name", "va", "_sz", "_al")
    def __init__(self, k, n=0, el=None, els=None, packed=False, name=None, va=False):
        self.k, self.n, self.el, self.els, self.packed, self.name, self.va = k, n, el, els, packed, name, va
        self._sz = self._al = None
    def __repr__(self):
        if self.k == "int": return f"i{self.n}"
        if self.k == "array": return f"[{self.n} x {self.el}]"
        if self.k == "vec": return f"<{self.n} x {self.el}>"
        if self.k == "struct": return self.name or "{" + ", ".join(map(repr, self.els)) + "}"
        return self.k

_int = {}
def IntTy(n):
    if n not in _int: _int[n] = Ty("int", n)
    return _int[n]
PTR, VOID, FLOAT, DOUBLE = Ty("ptr"), Ty("void"), Ty("float"), Ty("double")
LABEL, META, TOKEN, HALF, X86FP80, BFLOAT = Ty("label"), Ty("metadata"), Ty("token"), Ty("half"), Ty("x86_fp80"), Ty("bfloat")
SIMPLE = {"ptr": PTR, "void": VOID, "float": FLOAT, "double": DOUBLE, "label": LABEL, "metadata": META, "token": TOKEN,
          "half": HALF, "x86_fp80": X86FP80, "bfloat": BFLOAT}

def align_of(t):
    if t._al is None:
        if t.k == "int": a = min(16, max(1, 1 << (max(1, (t.n + 7) // 8) - 1).bit_length()))
        elif t.k in ("ptr", "double"): a = 8
        elif t.k == "float": a = 4
        elif t.k in ("half", "bfloat"): a = 2
        elif t.k == "x86_fp80": a = 16
        elif t.k == "array": a = align_of(t.el)
        elif t.k == "vec": a = 1 << (max(1, t.n * bits_of(t.el) // 8) - 1).bit_length()
        elif t.k == "struct": a = 1 if t.packed or not t.els else max(align_of(e) for e in t.els)
        else: raise ParseError(f"align of {t}")
        t._al = a
    return t._al

def bits_of(t):
    if t.k == "int": return t.n
    if t.k == "ptr": return 64
    return size_of(t) * 8

def size_of(t):
    if t._sz is None:
        if t.k == "int":
            b = (t.n + 7) // 8
            a = align_of(t); s = (b + a - 1) // a * a
        elif t.k in ("ptr", "double"): s = 8
        elif t.k == "float": s = 4
        elif t.k in ("half", "bfloat"): s = 2
        elif t.k == "x86_fp80": s = 16
        elif t.k == "array": s = t.n * size_of(t.el)
        elif t.k == "vec": s = max(1, t.n * bits_of(t.el) // 8)
        elif t.k == "struct":
            s = 0
            for e in t.els:
                if not t.packed:
                    a = align_of(e); s = (s + a - 1) // a * a
                s += size_of(e)
            a = align_of(t); s = (s + a - 1) // a * a
        else: raise ParseError(f"size of {t}")
        t._sz = s
    return t._sz

def field_off(t, i):
    s = 0
    for j, e in enumerate(t.els):
        if not t.packed:
            a = align_of(e); s = (s + a - 1) // a * a
        if j == i: return s
        s += size_of(e)
    raise ParseError("field index")

# ---------------------------------------------------------------- values
# operand: ('reg', name) ('int', v) ('fp', pyfloat, ty) ('null',) ('undef',) ('zero',) ('glob', name)
#          ('agg', [(ty,op)...]) ('cexpr', op, args...) ('str', bytes) ('meta',)

class Instr:
    __slots__ = ("op", "res", "ty", "a", "line", "id")
    def __init__(self, op, res, ty, a, line):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line
    def __repr__(self): return self.line.strip()

class Block:
    __slots__ = ("name", "ins", "phis", "preds", "succs")
    def __init__(self, name): self.name, self.ins, self.phis, self.preds, self.succs = name, [], [], [], []

class Func:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.attrs = name, ret, params, attrs
        self.blocks, self.order, self.loops = {}, [], None
        self.dname = name
    def __repr__(self): return f"<fn {self.dname}>"

class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls, self.aliases = {}, {}, {}, {}, {}
        self.attrs = {}

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?[0-9]+\.[0-9]+e[-+]?[0-9]+|-?[0-9]+\.[0-9]+|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<id>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<str>"[^"]*")
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def toks(s):
    out, i, n = [], 0, len(s)
    m = TOK.match
    while i < n:
        if s[i] == ';': break
        r = m(s, i)
        if not r: raise ParseError(f"lex: {s[i:i+40]!r} in {s[:200]!r}")
        i = r.end()
        k = r.lastgroup
        if k != "ws": out.append((k, r.group()))
    out.append(("eof", ""))
    return out

def unq(s):
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s

PATTR = {"noundef", "nonnull", "zeroext", "signext", "inreg", "noalias", "nocapture", "readonly", "readnone", "writeonly",
         "returned", "nest", "swiftself", "immarg", "nofree", "inalloca", "noext", "writable", "dead_on_unwind", "allocptr", "allocalign"}
PATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "byval", "sret", "align", "byref", "preallocated", "elementtype", "nofpclass", "range", "captures", "initializes"}
LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr",
        "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr",
        "thread_local", "externally_initialized"}
CC = {"ccc", "fastcc", "coldcc", "tailcc", "swiftcc"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}

class P:
    def __init__(self, mod, ts): self.m, self.t, self.i = mod, ts, 0
    def peek(self): return self.t[self.i][1]
    def kind(self): return self.t[self.i][0]
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def acc(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] != "eof":
            self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise ParseError(f"expected {v!r} got {self.peek()!r} near {' '.join(x[1] for x in self.t[max(0,self.i-12):self.i+8])}")

    def ty(self):
        k, v = self.t[self.i]; self.i += 1
        if k == "id":
            if v in SIMPLE:
                t = SIMPLE[v]
                if v == "ptr" and self.peek() == "addrspace":
                    self.next(); self.exp("("); self.next(); self.exp(")")
            elif v[0] == "i" and v[1:].isdigit(): t = IntTy(int(v[1:]))
            elif v == "target":  # target("...")
                raise ParseError("target type")
            else: raise ParseError(f"type {v}")
        elif k == "lid":
            nm = unq(v); t = self.m.types.get(nm)
            if t is None:
                t = Ty("struct", els=None, name=nm); self.m.types[nm] = t
        elif v == "[":
            n = int(self.next()); self.exp("x"); e = self.ty(); self.exp("]"); t = Ty("array", n, e)
        elif v == "{":
            els = []
            while not self.acc("}"):
                els.append(self.ty()); self.acc(",")
            t = Ty("struct", els=els)
        elif v == "<":
            if self.acc("{"):
                els = []
                while not self.acc("}"):
                    els.append(self.ty()); self.acc(",")
                self.exp(">"); t = Ty("struct", els=els, packed=True)
            else:
                n = int(self.next()); self.exp("x"); e = self.ty(); self.exp(">"); t = Ty("vec", n, e)
        else: raise ParseError(f"type token {v!r}")
        while self.peek() == "(" and t.k in ("void", "int", "ptr", "float", "double", "struct", "array", "vec") and self._isfnty():
            self.next()
            va = False
            while not self.acc(")"):
                if self.acc("..."): va = True
                else: self.ty()
                self.acc(",")
            t = Ty("fn", el=t, va=va)
        return t
    def _isfnty(self):
        # after a type, "(" begins a function type only when its contents are types (call with varargs / fn type)
        j = self.i + 1
        k, v = self.t[j]
        if v in (")", "..."): return True
        if k == "id" and (v in SIMPLE or re.fullmatch(r"i\d+", v)):
            k2, v2 = self.t[j + 1]
            return v2 in (",", ")")
        if k == "lid" or v in ("{", "[", "<"):
            # type operand lists in function types contain no value tokens
            d, q = 0, j
            while True:
                kk, vv = self.t[q]
                if vv in "([{<": d += 1
                elif vv in ")]}>":
                    if d == 0: break
                    d -= 1
                q += 1
                if kk == "eof": return False
            return self.t[q + 1][0] == "gid" or self.t[q + 1][0] == "lid"
        return False

    def pattrs(self):
        sret = byval = None
        while True:
            v = self.peek(); k = self.kind()
            if k == "id" and v in PATTR: self.next()
            elif k == "id" and v in PATTR_PAREN:
                self.next()
                if self.acc("("):
                    if v in ("sret", "byval"):
                        t = self.ty()
                        if v == "byval": byval = t
                        else: sret = t
                        self.exp(")")
                    else:
                        d = 1
                        while d:
                            x = self.next()
                            if x == "(": d += 1
                            elif x == ")": d -= 1
                elif v == "align": self.next()
            elif k == "attr" or k == "str": 
                self.next()
                if self.acc("="): self.next()
            else: break
        return byval

    def val(self, ty):
        k, v = self.t[self.i]; self.i += 1
        if k == "lid": return ("reg", unq(v))
        if k == "gid": return ("glob", unq(v))
        if k == "num":
            if ty.k in ("float", "double", "half", "bfloat", "x86_fp80"):
                return ("fp", parsefp(v, ty), ty)
            if ty.k == "int":
                return ("int", int(v, 0) & ((1 << ty.n) - 1))
            raise ParseError(f"num for {ty}")
        if k == "cstr":
            b = bytearray(); s = v[2:-1]; i = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i+1] == "\\": b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ("str", bytes(b))
        if k == "id":
            if v == "true": return ("int", 1)
            if v == "false": return ("int", 0)
            if v == "null": return ("null",)
            if v == "none": return ("null",)
            if v in ("undef", "poison"): return ("undef",)
            if v == "zeroinitializer": return ("zero",)
            if v == "getelementptr":
                inb = self.acc("inbounds")
                if self.acc("inrange"): 
                    pass
                self.exp("("); t = self.ty(); self.exp(",")
                args = []
                while True:
                    self.acc("inrange")
                    at = self.ty(); args.append((at, self.val(at)))
                    if not self.acc(","): break
                self.exp(")")
                return ("cexpr", "gep", t, args)
            if v in CASTS:
                self.exp("("); t = self.ty(); x = self.val(t); self.exp("to"); t2 = self.ty(); self.exp(")")
                return ("cexpr", "cast", v, t, x, t2)
            if v in BINOPS:
                while self.peek() in ("nuw", "nsw", "exact"): self.next()
                self.exp("("); t = self.ty(); x = self.val(t); self.exp(","); t2 = self.ty(); y = self.val(t2); self.exp(")")
                return ("cexpr", "bin", v, t, x, y)
            if v in ("icmp",):
                pr = self.next(); self.exp("("); t = self.ty(); x = self.val(t); self.exp(","); t2 = self.ty(); y = self.val(t2); self.exp(")")
                return ("cexpr", "icmp", pr, t, x, y)
            if v == "select":
                raise ParseError("const select")
            if v == "blockaddress":
                raise ParseError("blockaddress")
            if v == "dso_local_equivalent" or v == "no_cfi":
                return self.val(ty)
            raise ParseError(f"value {v}")
        if v in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[v]
            pk = False
            if v == "<" and self.peek() == "{":
                self.next(); pk = True; close = "}"
            els = []
            while not self.acc(close):
                t = self.ty(); els.append((t, self.val(t))); self.acc(",")
            if pk: self.exp(">")
            return ("agg", els)
        if k == "meta":
            self.i -= 1
            self.skipmeta()
            return ("meta",)
        raise ParseError(f"value token {v!r}")

    def skipmeta(self):
        self.next()
        if self.peek() in ("(", "{"):
            o = self.next(); d = 1
            while d:
                x = self.next()
                if x in "({": d += 1
                elif x in ")}": d -= 1

    def tv(self):
        t = self.ty()
        if t.k == "metadata":
            # metadata operand
            if self.kind() == "meta":
                self.skipmeta(); return (t, ("meta",))
            t2 = self.ty(); v = self.val(t2); return (t, ("meta",))
        self.pattrs()
        return (t, self.val(t))

def parsefp(v, ty):
    import struct
    if v.startswith("0x"):
        if v[2] in "KLMHR":
            if v[2] == "K":
                return float("nan")
            raise ParseError("fp const " + v)
        return struct.unpack(">d", int(v, 16).to_bytes(8, "big"))[0]
    return float(v)

def parse_instr(p, line):
    res = None
    if p.kind() == "lid" and p.t[p.i + 1][1] == "=":
        res = unq(p.next()); p.next()
    op = p.next()
    I = lambda ty, a: Instr(op, res, ty, a, line)
    if op in ("tail", "musttail", "notail"): op = p.next()
    if op in BINOPS:
        flags = set()
        while p.peek() in FMF or p.peek() in ("nuw", "nsw", "exact", "disjoint"): flags.add(p.next())
        t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
        return I(t, (a, b, flags))
    if op == "fneg":
        while p.peek() in FMF: p.next()
        t = p.ty(); return I(t, (p.val(t),))
    if op in ("icmp", "fcmp"):
        while p.peek() in FMF: p.next()
        pr = p.next(); t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
        return I(t, (pr, a, b))
    if op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw"): p.next()
        t = p.ty(); a = p.val(t); p.exp("to"); t2 = p.ty()
        return I(t2, (t, a))
    if op == "load":
        at = p.acc("atomic"); p.acc("volatile")
        t = p.ty(); p.exp(","); p.ty(); return I(t, (p.val(PTR),))
    if op == "store":
        p.acc("atomic"); p.acc("volatile")
        t, v = p.tv(); p.exp(","); p.ty(); return I(VOID, (t, v, p.val(PTR)))
    if op == "alloca":
        p.acc("inalloca"); t = p.ty(); n = ("int", 1)
        if p.acc(",") and p.peek() != "align":
            t2 = p.ty(); n = p.val(t2)
        return I(PTR, (t, n))
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        t = p.ty(); p.exp(",")
        args = [p.tv()]
        while p.acc(","):
            if p.kind() == "meta": break
            args.append(p.tv())
        return I(PTR, (t, args))
    if op == "br":
        if p.acc("label"):
            return I(VOID, ("u", unq(p.next())))
        p.ty(); c = p.val(IntTy(1)); p.exp(","); p.exp("label"); a = unq(p.next()); p.exp(","); p.exp("label"); b = unq(p.next())
        return I(VOID, ("c", c, a, b))
    if op == "switch":
        t = p.ty(); v = p.val(t); p.exp(","); p.exp("label"); d = unq(p.next()); p.exp("[")
        cs = []
        while not p.acc("]"):
            t2 = p.ty(); c = p.val(t2); p.exp(","); p.exp("label"); cs.append((c[1], unq(p.next())))
        return I(t, (v, d, cs))
    if op == "ret":
        t = p.ty()
        return I(t, (None if t.k == "void" else p.val(t),))
    if op == "unreachable": return I(VOID, ())
    if op == "resume":
        t, v = p.tv(); return I(VOID, (t, v))
    if op == "phi":
        while p.peek() in FMF: p.next()
        t = p.ty(); inc = {}
        while True:
            p.exp("["); v = p.val(t); p.exp(","); b = unq(p.next()); p.exp("]"); inc[b] = v
            if not p.acc(","): break
            if p.kind() == "meta": break
        return I(t, inc)
    if op == "select":
        while p.peek() in FMF: p.next()
        ct, c = p.tv(); p.exp(","); t, a = p.tv(); p.exp(","); _, b = p.tv()
        return I(t, (c, a, b, ct))
    if op in ("call", "invoke"):
        while p.peek() in FMF or p.peek() in CC: p.next()
        p.pattrs()
        t = p.ty()
        if t.k == "fn": t = t.el
        if p.kind() == "id" and p.peek() == "asm":
            p.next()
            while p.kind() == "id": p.next()
            s = p.next(); p.exp(","); c = p.next()
            callee = ("asm", s, c)
        else:
            callee = p.val(PTR)
        p.exp("(")
        args = []
        while not p.acc(")"):
            at = p.ty()
            if at.k == "metadata":
                if p.kind() == "meta": p.skipmeta()
                else:
                    t2 = p.ty(); p.val(t2)
                args.append((at, ("meta",), None))
            else:
                bv = p.pattrs()
                args.append((at, p.val(at), bv))
            p.acc(",")
        if op == "invoke":
            while p.peek() != "to":
                if p.kind() == "eof": raise ParseError("invoke")
                p.next()
            p.exp("to"); p.exp("label"); n = unq(p.next()); p.exp("unwind"); p.exp("label"); u = unq(p.next())
            return Instr("invoke", res, t, (callee, args, n, u), line)
        return Instr("call", res, t, (callee, args), line)
    if op == "landingpad":
        t = p.ty(); cl = []; cleanup = False
        while p.kind() != "eof":
            if p.acc("cleanup"): cleanup = True
            elif p.acc("catch"):
                t2 = p.ty(); cl.append(("catch", p.val(t2)))
            elif p.acc("filter"):
                t2 = p.ty(); cl.append(("filter", p.val(t2)))
            else: p.next()
        return I(t, (cleanup, cl))
    if op == "extractvalue":
        t, v = p.tv(); idx = []
        while p.acc(","):
            if p.kind() == "meta": break
            idx.append(int(p.next()))
        return I(t, (v, idx))
    if op == "insertvalue":
        t, v = p.tv(); p.exp(","); t2, e = p.tv(); idx = []
        while p.acc(","):
            if p.kind() == "meta": break
            idx.append(int(p.next()))
        return I(t, (v, t2, e, idx))
    if op == "extractelement":
        t, v = p.tv(); p.exp(","); t2, i = p.tv(); return I(t, (v, t2, i))
    if op == "insertelement":
        t, v = p.tv(); p.exp(","); t2, e = p.tv(); p.exp(","); t3, i = p.tv(); return I(t, (v, e, t3, i))
    if op == "shufflevector":
        t, a = p.tv(); p.exp(","); _, b = p.tv(); p.exp(","); mt, m = p.tv(); return I(t, (a, b, mt, m))
    if op == "freeze":
        t, v = p.tv(); return I(t, (v,))
    if op == "atomicrmw":
        p.acc("volatile"); o = p.next(); p.ty(); ptr = p.val(PTR); p.exp(","); t, v = p.tv(); return I(t, (o, ptr, v))
    if op == "cmpxchg":
        weak = p.acc("weak"); p.acc("volatile"); p.ty(); ptr = p.val(PTR); p.exp(","); t, c = p.tv(); p.exp(","); _, n = p.tv()
        return I(t, (ptr, c, n, weak))
    if op == "fence": return I(VOID, ())
    raise ParseError(f"instr {op}: {line}")

FN_HDR = re.compile(r'^(define|declare)\b')

def parse_module(text):
    m = Module()
    lines = text.split("\n")
    n = len(lines); i = 0
    bodies = []
    while i < n:
        ln = lines[i]
        if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target ", "attributes ", "module asm", "$", "uselistorder")):
            if ln.startswith("attributes "):
                mm = re.match(r"attributes (#\d+) = \{(.*)\}", ln)
                m.attrs[mm.group(1)] = mm.group(2)
            i += 1; continue
        if ln[0] == "%":
            nm, rest = ln.split(" = type ", 1)
            nm = unq(nm)
            t = m.types.get(nm)
            if t is None: t = Ty("struct", els=None, name=nm); m.types[nm] = t
            if rest.strip() != "opaque":
                p = P(m, toks(rest)); u = p.ty()
                t.els, t.packed = u.els, u.packed
            i += 1; continue
        if ln[0] == "@":
            parse_global(m, ln); i += 1; continue
        if ln.startswith("declare"):
            f = parse_fnhdr(m, ln); m.decls[f.name] = f; i += 1; continue
        if ln.startswith("define"):
            f = parse_fnhdr(m, ln); j = i + 1; body = []
            while lines[j] != "}":
                body.append(lines[j]); j += 1
            bodies.append((f, body)); m.funcs[f.name] = f
            i = j + 1; continue
        i += 1
    for f, body in bodies: f.body = body; f.parsed = False
    return m

def ensure(m, f):
    if not f.parsed:
        parse_body(m, f, f.body); f.body = None; f.parsed = True
    return f

def parse_global(m, ln):
    p = P(m, toks(ln))
    nm = unq(p.next()); p.exp("=")
    const = False; ext = False
    while True:
        v = p.peek()
        if v in LINK:
            if v in ("external", "extern_weak"): ext = True
            p.next()
            if v == "thread_local" and p.acc("("):
                p.next(); p.exp(")")
        elif v == "addrspace":
            p.next(); p.exp("("); p.next(); p.exp(")")
        elif v in ("global", "constant"): const = v == "constant"; p.next(); break
        elif v == "alias":
            p.next(); p.ty(); p.exp(","); t = p.ty(); m.aliases[nm] = p.val(t); return
        else: raise ParseError("global " + ln[:200])
    t = p.ty()
    init = None
    if not ext and p.peek() not in (",",) and p.kind() != "eof":
        init = p.val(t)
    m.globals[nm] = (t, init, const)

def parse_fnhdr(m, ln):
    p = P(m, toks(ln)); p.next()
    while p.peek() in LINK or p.peek() in CC: p.next()
    p.pattrs()
    ret = p.ty()
    if ret.k == "fn":
        # mis-parsed "ret (types)" of declare without attrs; cannot happen before @name
        raise ParseError("fn hdr " + ln[:100])
    nm = unq(p.next()); p.exp("(")
    params = []; va = False; k = 0
    while not p.acc(")"):
        if p.acc("..."): va = True
        else:
            t = p.ty(); bv = p.pattrs(); name = None
            if p.kind() == "lid": name = unq(p.next())
            else: name = str(k)
            k += 1
            params.append((t, name, bv))
        p.acc(",")
    attrs = []
    while p.kind() != "eof":
        k2, v = p.t[p.i]; p.i += 1
        if k2 == "attr": attrs.append(v)
    f = Func(nm, ret, params, attrs); f.va = va
    return f

LBL = re.compile(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):')

def parse_body(m, f, body):
    cur = None; first = True
    i, n = 0, len(body)
    nm = 0
    while i < n:
        ln = body[i]; i += 1
        if not ln.strip() or ln.lstrip().startswith(";"): continue
        mm = LBL.match(ln)
        if mm:
            cur = Block(mm.group(1) if mm.group(1) is not None else mm.group(2)); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
        if cur is None:
            # unnamed entry: number = count of unnamed params
            cur = Block("__entry"); f.blocks[cur.name] = cur; f.order.append(cur.name)
            cnt = sum(1 for p_ in f.params if p_[1].isdigit())
            f.blocks_alias = {str(cnt): "__entry"}
        s = ln.strip()
        if s.startswith("switch") or (" = landingpad" in s) or s.startswith("invoke") or " = invoke" in s:
            # multi-line
            if s.startswith("switch"):
                while "]" not in body[i-1]:
                    s += " " + body[i].strip(); i += 1
            elif "landingpad" in s:
                while i < n and body[i].strip().startswith(("catch", "cleanup", "filter")):
                    s += " " + body[i].strip(); i += 1
            else:
                while " unwind label" not in s:
                    s += " " + body[i].strip(); i += 1
        if "call void @llvm.dbg" in s: continue
        # strip trailing metadata
        ix = s.find(", !")
        if ix >= 0 and "metadata" not in s: s = s[:ix]
        p = P(m, toks(s))
        ins = parse_instr(p, s)
        if ins.op == "phi": cur.phis.append(ins)
        else: cur.ins.append(ins)
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == "br": b.succs = [t.a[1]] if t.a[0] == "u" else [t.a[2], t.a[3]]
        elif t.op == "switch": b.succs = [t.a[1]] + [c[1] for c in t.a[2]]
        elif t.op == "invoke": b.succs = [t.a[2], t.a[3]]
        al = getattr(f, "blocks_alias", {})
        b.succs = [al.get(s_, s_) for s_ in b.succs]
    al = getattr(f, "blocks_alias", None)
    if al:
        for b in f.blocks.values():
            for ph in b.phis:
                for k_, v_ in al.items():
                    if k_ in ph.a: ph.a[v_] = ph.a.pop(k_)
    for b in f.blocks.values():
        for s_ in b.succs:
            if b.name not in f.blocks[s_].preds: f.blocks[s_].preds.append(b.name)
    find_loops(f)

def find_loops(f):
    """Natural loops via iterative dominators. f.loops: header -> set(block names); f.lorder: header -> ordinal."""
    order, seen = [], set()
    def dfs(b):
        st = [(b, iter(f.blocks[b].succs))]; seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(f.blocks[s].succs))); break
            else:
                order.append(x); st.pop()
    entry = f.order[0]
    dfs(entry)
    rpo = order[::-1]; num = {b: k for k, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in f.blocks[b].preds if p in idom]
            if not ps: continue
            nd = ps[0]
            for p in ps[1:]:
                x, y = nd, p
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                nd = x
            if idom.get(b) != nd: idom[b] = nd; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs:
            if s in num and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in f.blocks[x].preds if p in num)
    f.loops = loops
    f.lorder = {h: i for i, h in enumerate(sorted(loops, key=lambda h: num[h]))}
    f.rpo = num
