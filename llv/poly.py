"""Polynomials over z3 atoms: canonical form for machine integers (a representative modulo 2^w), pointer offsets and reals."""
from fractions import Fraction
import z3

ATOMS = {}          # ast id -> z3 term (kept alive)
RNG = {}            # ast id -> (lo, hi) integer interval that holds whatever the path is
BOOLI = {}          # ast id of If(b,1,0) -> b

class Poly:
    __slots__ = ("m", "_z", "_k")
    def __init__(self, m): self.m, self._z, self._k = m, None, None
    def key(self):
        if self._k is None: self._k = tuple(sorted(self.m.items()))
        return self._k
    def is_const(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def __repr__(self): return f"P({self.m})"

def atom(t, rng=None):
    i = t.get_id()
    if i not in ATOMS: ATOMS[i] = t
    if rng is not None:
        o = RNG.get(i)
        RNG[i] = rng if o is None else (max(o[0], rng[0]), min(o[1], rng[1]))
    return Poly({(i,): 1})

def norm(m):
    """dict -> python number or Poly"""
    m = {k: v for k, v in m.items() if v != 0}
    if not m: return 0
    if len(m) == 1 and () in m: return m[()]
    return Poly(m)

def mono(x):
    if isinstance(x, Poly): return x.m
    return {(): x} if x != 0 else {}

def add(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a + b
    m = dict(mono(a))
    for k, v in mono(b).items(): m[k] = m.get(k, 0) + v
    return norm(m)

def scale(a, c):
    if not isinstance(a, Poly): return a * c
    if c == 0: return 0
    return Poly({k: v * c for k, v in a.m.items()})

def neg(a): return scale(a, -1)
def sub(a, b): return add(a, neg(b))

def mul(a, b):
    if not isinstance(a, Poly): return scale(b, a) if isinstance(b, Poly) else a * b
    if not isinstance(b, Poly): return scale(a, b)
    m = {}
    for k1, v1 in a.m.items():
        for k2, v2 in b.m.items():
            k = tuple(sorted(k1 + k2)); m[k] = m.get(k, 0) + v1 * v2
    return norm(m)

def const_of(a):
    if isinstance(a, Poly): return None
    return a

def divisible(a, c):
    return all(v % c == 0 for v in mono(a).values())

def exact_div(a, c):
    if not isinstance(a, Poly): return a // c
    return Poly({k: v // c for k, v in a.m.items()})

def eqsyn(a, b):
    d = sub(a, b)
    return None if isinstance(d, Poly) else d == 0

def interval(a):
    if not isinstance(a, Poly): return (a, a)
    lo = hi = 0
    for k, v in a.m.items():
        l, h = 1, 1
        for i in k:
            r = RNG.get(i)
            if r is None: return (None, None)
            c = (l * r[0], l * r[1], h * r[0], h * r[1]); l, h = min(c), max(c)
        if v >= 0: lo += v * l; hi += v * h
        else: lo += v * h; hi += v * l
    return (lo, hi)

def to_int(a):
    if not isinstance(a, Poly): return z3.IntVal(int(a))
    if a._z is None:
        ts = []
        for k, v in a.key():
            t = None
            for i in k: t = ATOMS[i] if t is None else t * ATOMS[i]
            if t is None: t = z3.IntVal(v)
            elif v != 1: t = z3.IntVal(v) * t
            ts.append(t)
        a._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return a._z

def realval(v):
    v = Fraction(v)
    return z3.RealVal(f"{v.numerator}/{v.denominator}")

def to_real(a):
    if not isinstance(a, Poly): return realval(a)
    if a._z is None:
        ts = []
        for k, v in a.key():
            t = None
            for i in k: t = ATOMS[i] if t is None else t * ATOMS[i]
            if t is None: t = realval(v)
            elif v != 1: t = realval(v) * t
            ts.append(t)
        a._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return a._z

def to_bv(a, w=64):
    if not isinstance(a, Poly): return z3.BitVecVal(int(a) & ((1 << w) - 1), w)
    if a._z is None:
        ts = []
        for k, v in a.key():
            t = None
            for i in k: t = ATOMS[i] if t is None else t * ATOMS[i]
            if t is None: t = z3.BitVecVal(v & ((1 << w) - 1), w)
            elif v != 1: t = z3.BitVecVal(v & ((1 << w) - 1), w) * t
            ts.append(t)
        r = ts[0]
        for t in ts[1:]: r = r + t
        a._z = r
    return a._z

def from_z3(t):
    """z3 Int/Real term -> Poly (linear structure kept)."""
    if z3.is_int_value(t): return t.as_long()
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        r = 0
        for c in t.children(): r = add(r, from_z3(c))
        return r
    if k == z3.Z3_OP_SUB:
        cs = t.children(); r = from_z3(cs[0])
        for c in cs[1:]: r = sub(r, from_z3(c))
        return r
    if k == z3.Z3_OP_UMINUS: return neg(from_z3(t.children()[0]))
    if k == z3.Z3_OP_MUL:
        r = 1
        for c in t.children(): r = mul(r, from_z3(c))
        return r
    return atom(t)
