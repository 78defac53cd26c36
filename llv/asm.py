"""x86 inline assembly: a small interpreter for straight-line SSE/AVX float code (AT&T syntax).
Registers hold lists of float lanes; anything outside the table below is Unsupported."""
import re
from ir import FLOAT
from engine import Unsupported, Ptr, PL
def decode(s):
    s = s.strip()
    if s.startswith('"'): s = s[1:-1]
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)
def off(p, k): return Ptr(p.obj, PL.add(p.off, k))
def run(e, st, template, cons, args):
    elty = FLOAT
    text = decode(template)
    lines = [l for l in (re.sub(r"\s*#.*$", "", x).strip() for x in re.split(r"[\n;]", text)) if l]
    if not lines: return                                     # a compiler barrier: no instructions
    cl = [c for c in decode(cons).split(",") if c]
    ins = [c for c in cl if not c.startswith("~")]
    if any(c not in ("r", "m", "*m") or c == "*m" for c in ins) or len(ins) != len(args): raise Unsupported("inline asm constraints " + ",".join(ins))
    clob = {c[2:-1] for c in cl if c.startswith("~{")}
    R = {}
    def reg(t):
        m = re.fullmatch(r"%([xy])mm(\d+)", t)
        return m and (int(m.group(2)), 4 if m.group(1) == "x" else 8)
    def imm(t):
        m = re.fullmatch(r"\$\$(\d+)", t) or re.fullmatch(r"\$\$0x([0-9a-fA-F]+)()", t)
        if not m: raise Unsupported("inline asm operand " + t)
        return int(m.group(1), 16 if m.lastindex == 2 else 10)
    def mem(t):
        m = re.fullmatch(r"(-?\d+)?\(\$(\d+)\)", t)
        if not m or int(m.group(2)) >= len(args): raise Unsupported("inline asm operand " + t)
        return off(e.toptr(st, args[int(m.group(2))]), int(m.group(1) or 0))
    def get(t, w):
        r = reg(t)
        if r:
            if r[1] != w: raise Unsupported("inline asm operand width")
            v = R.get(r[0])
            if v is None or None in v[:w]: raise Unsupported("inline asm reads a register it has not written")
            return v[:w]
        p = mem(t)
        return [e.load(st, elty, off(p, 4 * k)) for k in range(w)]
    def put(t, v, vex):
        r = reg(t)
        if r is None:
            if "memory" not in clob: e.oblige(st, False, "inline assembly writes memory without declaring it", "mem")
            p = mem(t)
            for k, x in enumerate(v): e.store(st, elty, x, off(p, 4 * k))
            return
        n, w = r
        if not ({f"xmm{n}", f"ymm{n}"} & clob): e.oblige(st, False, f"inline assembly writes xmm{n} without declaring it", "mem")
        old = R.get(n, [None] * 8)
        R[n] = list(v) + ([0] * (8 - w) if vex else old[w:])
    F = lambda op, a, b: [e.fop(st, op, "float", x, y) for x, y in zip(a, b)]
    for l in lines:
        mn, _, rest = l.partition(" ")
        ops = [o.strip() for o in re.findall(r"[^,(]*\([^)]*\)|[^,]+", rest)]
        vex = mn.startswith("v"); b = mn[1:] if vex else mn
        rd = reg(ops[-1]); w = rd[1] if rd else next((reg(o)[1] for o in ops if reg(o)), None)
        if w is None: raise Unsupported("inline asm instruction " + l)
        if b in ("movups", "movaps"):
            if b == "movaps" and not (reg(ops[0]) and reg(ops[1])): raise Unsupported("aligned vector access in inline asm")
            put(ops[1], get(ops[0], w), vex); continue
        if b in ("addps", "subps", "addsubps", "mulps", "xorps", "unpcklps", "unpckhps"):
            if vex: s2, s1, d = ops
            else: s2, d = ops; s1 = d
            if b == "xorps":
                if s1 != s2: raise Unsupported("inline asm xor of different registers")
                put(d, [0] * w, vex); continue
            x, y = get(s1, w), get(s2, w)
            if b == "addps": r = F("fadd", x, y)
            elif b == "subps": r = F("fsub", x, y)
            elif b == "mulps": r = F("fmul", x, y)
            elif b == "addsubps": r = [e.fop(st, "fadd" if k & 1 else "fsub", "float", x[k], y[k]) for k in range(w)]
            else:
                o = 2 if b == "unpckhps" else 0
                r = [z for g in range(0, w, 4) for z in (x[g + o], y[g + o], x[g + o + 1], y[g + o + 1])]
            put(d, r, vex); continue
        if b in ("shufps", "blendps", "perm2f128") or b == "permilps":
            i = imm(ops[0])
            if b == "permilps": s2 = s1 = ops[1]; d = ops[2]
            elif vex: s2, s1, d = ops[1:]
            else: s2, d = ops[1:]; s1 = d
            x, y = get(s1, w), get(s2, w)
            if b in ("shufps", "permilps"):
                r = [z for g in range(0, w, 4) for z in (x[g + (i & 3)], x[g + (i >> 2 & 3)], y[g + (i >> 4 & 3)], y[g + (i >> 6 & 3)])]
            elif b == "blendps": r = [y[k] if i >> k & 1 else x[k] for k in range(w)]
            else:
                if w != 8: raise Unsupported("inline asm instruction " + l)
                halves = [x[:4], x[4:], y[:4], y[4:]]
                r = []
                for f in (i & 15, i >> 4): r += [0] * 4 if f & 8 else halves[f & 3]
            put(d, r, vex); continue
        raise Unsupported("inline asm instruction " + mn)
