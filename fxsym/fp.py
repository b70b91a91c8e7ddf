"""Doubles: exact constants, symbolic bit patterns, and real-valued results with the IEEE 754 rounding error as constraint.

An operation's result is a real variable within half a unit in the last place (relative 2^-53) of the exact result of its operands;
conversions of integers that fit 53 bits are exact.  Every variable carries its concrete evaluation, used for validation only.
"""
import math, struct
from fractions import Fraction

from .poly import *
from . import sym
from .sym import Flt

E53 = 1 << 53
INF_BITS = 0x7ff << 52


def to_bits(x):
    return int.from_bytes(struct.pack("<d", x), "little")


def from_bits(b):
    return struct.unpack("<d", (b & (1 << 64) - 1).to_bytes(8, "little"))[0]


def conc(f):
    """concrete evaluator: env -> python float"""
    if isinstance(f, float):
        return lambda ev: f
    if f.kind == "bits":
        return lambda ev: from_bits(peval(f.v, ev))
    if f.kind == "int":
        return lambda ev: float(peval(f.v, ev))
    return f.x


def within(r, e, sgn, rel=E53):
    """|r - e| <= |e| / rel, the sign of e being known"""
    d = pscale(psub(r, e), rel)
    a = e if sgn >= 0 else pscale(e, -1)
    return f_and(ge(a, d), ge(d, pscale(a, -1)))


def content_fits(eng, st, n):
    """is the integer n exactly a double: |n| <= 2^53 * 2^e with 2^e dividing it"""
    if type(n) is not Poly:
        return float(n) == n if abs(n) < 1 << 1000 else False
    e = eng.low_zero_bits(n)
    lo, hi = eng.iv(st, n)
    return max(abs(lo), abs(hi)) <= E53 << min(e, 900)


def new_real(eng, st, key, name, ev, lo=-sym.INF, hi=sym.INF):
    a = eng.atoms.get(key, name, ("fn", lambda env: Fraction(ev(env))))
    REAL_ATOMS.add(a)
    st.ab.setdefault(a, (lo, hi))
    return atom_poly(a)


def sign(eng, st, p):
    """sign of a real or integer polynomial: >= 0 or < 0, forking where it is open"""
    if type(p) is not Poly:
        return 1 if p >= 0 else -1
    f = eng.simp(st, ge(p, 0))
    if f is True or not eng.possible(st, f_not(f)):
        return 1
    if f is False or not eng.possible(st, f):
        return -1
    raise sym.Fork([f, f_not(f)])


def real(eng, st, f):
    """(numerator polynomial, denominator): the exact value of a double"""
    if isinstance(f, float):
        if math.isinf(f) or math.isnan(f):
            raise sym.Unsupported("infinite operand")
        x = Fraction(f)
        return x.numerator, x.denominator
    if f.kind == "int":
        n = f.v
        if content_fits(eng, st, n):
            return n, 1
        c = eng.const_of(st, n)
        if c is not None:
            return int(float(c)), 1
        key = ("rnd", n)
        fresh = key not in st.defs
        r = new_real(eng, st, key, "fl", conc(f))
        if fresh:
            s = sign(eng, st, n)
            st.defs[key] = r
            eng.add_pc(st, within(r, n, s))
        return r, 1
    if f.kind == "real":
        return f.v, 1
    raise sym.Unsupported("arithmetic on a double given by its bits")


def arith(eng, st, op, x, y):
    if isinstance(x, float) and isinstance(y, float):
        if op == "fdiv" and y == 0:
            raise sym.Unsupported("division by zero")
        return {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
    (a, da), (b, db) = real(eng, st, x), real(eng, st, y)
    cx, cy = conc(x), conc(y)
    for v, w, other in ((a, x, y), (b, y, x)):
        if type(v) is Poly and eng.const_of(st, v) == 0:
            v = 0
        if v == 0 and op in ("fadd",):
            return other
        if v == 0 and w is y and op == "fsub":
            return x
    if op in ("fadd", "fsub"):
        s = 1 if op == "fadd" else -1
        num, den = padd(pscale(a, db), pscale(b, s * da)), da * db
        ev = (lambda env: cx(env) + cy(env)) if s > 0 else (lambda env: cx(env) - cy(env))
    elif op == "fmul":
        if type(a) is Poly and type(b) is Poly:
            raise sym.Unsupported("product of symbolic doubles")
        num, den = pmul(a, b), da * db
        ev = lambda env: cx(env) * cy(env)
    else:
        if type(b) is Poly:
            c = eng.const_of(st, b)
            if c is None:
                raise sym.Unsupported("division by a symbolic double")
            b = c
        if b == 0:
            raise sym.Unsupported("division by zero")
        num, den = pscale(a, db), da * b
        if den < 0:
            num, den = pscale(num, -1), -den
        ev = lambda env: cx(env) / cy(env)
    if op in ("fmul", "fdiv"):
        # no underflow or overflow: the operand that varies is zero or has magnitude 1/2 .. 2^300, the constant 2^-300 .. 2^300
        if not 1 << 0 <= den < 1 << 600:
            raise sym.Unsupported("scale of a product")
        src = a if type(a) is Poly else b
        if not eng.must(st, f_or(eq(src, 0), ge(pscale(src, 2), 1), ge(pscale(src, -2), 1))):
            raise sym.Unsupported("possible underflow")
    key = (op, num, den)
    fresh = key not in st.defs
    r = new_real(eng, st, key, op, ev)
    if fresh:
        s = sign(eng, st, num)
        st.defs[key] = r
        eng.add_pc(st, within(pscale(r, den), num, s))
    return Flt("real", r, ev)


def fcmp(eng, st, cond, x, y):
    if isinstance(x, float) and isinstance(y, float):
        nan = math.isnan(x) or math.isnan(y)
        r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}.get(cond[1:])
        if cond == "ord":
            return not nan
        if cond == "uno":
            return nan
        return (cond[0] == "u") if nan else r
    if isinstance(x, float):
        flip = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
        if cond not in ("ord", "uno"):
            cond = cond[0] + flip.get(cond[1:], cond[1:])
        x, y = y, x
    if x.kind == "bits":
        if not isinstance(y, float):
            if cond in ("ord", "uno") and x.v == y.v:
                m = eng.U(st, x.v, 63)
                f = le(m, INF_BITS)
                return eng.simp(st, f if cond == "ord" else f_not(f))
            raise sym.Unsupported("comparison of bit patterns")
        # order of doubles as integers: sign and magnitude
        u = eng.U(st, x.v, 64)
        m = eng.U(st, x.v, 63)
        neg = ge(u, 1 << 63)
        yb = to_bits(abs(y))
        nan = gt(m, INF_BITS)
        if cond == "ord":
            return eng.simp(st, f_not(nan))
        if cond == "uno":
            return eng.simp(st, nan)
        if y >= 0:
            lt_ = f_or(f_and(neg, ne(m, 0)) if y == 0 else neg, f_and(f_not(neg), lt(m, yb)))
            if y != 0:
                eq_ = f_and(f_not(neg), eq(m, yb))
            else:
                eq_ = eq(m, 0)
                lt_ = f_and(neg, ne(m, 0))
        else:
            lt_ = f_and(neg, gt(m, yb))
            eq_ = f_and(neg, eq(m, yb))
        c = cond[1:]
        r = {"lt": lt_, "le": f_or(lt_, eq_), "eq": eq_, "ne": f_not(eq_), "gt": f_not(f_or(lt_, eq_)), "ge": f_not(lt_)}[c]
        r = f_or(nan, r) if cond[0] == "u" else f_and(f_not(nan), r)
        return eng.simp(st, r)
    if isinstance(y, Flt) and y.kind == "bits":
        raise sym.Unsupported("comparison with a bit pattern")
    if cond in ("ord", "uno"):
        return cond == "ord"
    if isinstance(y, float) and math.isinf(y):
        return {"lt": y > 0, "le": y > 0, "gt": y < 0, "ge": y < 0, "eq": False, "ne": True}[cond[1:]]
    (a, da), (b, db) = real(eng, st, x), real(eng, st, y)
    a, b = pscale(a, db), pscale(b, da)
    return eng.simp(st, {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": ne}[cond[1:]](a, b))


def compute(eng, st, ins, vals):
    op = ins[0]
    if op in ("sitofp", "uitofp"):
        v = vals[0]
        w = ins[2].n
        if ins[4].k != "double":
            raise sym.Unsupported("single precision")
        n = eng.S(st, v, w) if op == "sitofp" else eng.U(st, v, w)
        return Flt("int", n) if type(n) is Poly else float(n)
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        return arith(eng, st, op, vals[0], vals[1])
    if op == "fneg":
        x = vals[0]
        if isinstance(x, float):
            return -x
        if x.kind == "int":
            return Flt("real", pscale(real(eng, st, x)[0], -1), lambda env, c=conc(x): -c(env))
        if x.kind == "real":
            return Flt("real", pscale(x.v, -1), lambda env, c=conc(x): -c(env))
    if op == "fcmp":
        return fcmp(eng, st, ins[2], vals[0], vals[1])
    if op in ("fptosi", "fptoui"):
        return toint(eng, st, vals[0], ins[4].n, op == "fptosi", False)
    raise sym.Unsupported("fp " + op)


def root(eng, st, n):
    """the integer square root of the non-negative n"""
    if type(n) is not Poly:
        return math.isqrt(n)
    lo, hi = eng.iv(st, n)
    key = ("root", n)
    fresh = key not in st.defs
    a = eng.fresh(st, key, "root", math.isqrt(max(lo, 0)), math.isqrt(max(hi, 0)), ("fn", lambda ev: math.isqrt(max(peval(n, ev), 0))))
    r = atom_poly(a)
    if fresh:
        st.defs[key] = r
        st.defs[("rootof", a)] = n
        r2 = eng.product(st, r, r)
        eng.assume(st, ge(n, r2))
        eng.assume(st, ge(padd(r2, pscale(r, 2)), n))
    return r


def toint(eng, st, x, w, signed, sat):
    L, H = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
    if isinstance(x, float):
        if math.isnan(x):
            return 0
        v = (L if x < 0 else H) if math.isinf(x) else int(x)
        return max(L, min(H, v))
    if x.kind == "sqrt":
        n = x.v
        r = root(eng, st, n)
        lo, hi = eng.iv(st, n)
        if type(r) is not Poly or hi < 1 << 52:
            return r
        if hi >= 1 << 64:
            raise sym.Unsupported("root of a wide integer")
        d = atom_poly(eng.fresh(st, ("rootup", n), "up", 0, 1, ("fn", lambda ev: int(math.sqrt(float(peval(n, ev)))) - math.isqrt(peval(n, ev)))))
        c = eng.const_of(st, d)
        if c is None:
            eng.fork_values(st, d)
        return padd(r, c)
    if x.kind == "int" and content_fits(eng, st, x.v):
        lo, hi = eng.iv(st, x.v)
        if lo >= L and hi <= H:
            return x.v
    raise sym.Unsupported("conversion of a double to an integer")


def intrinsic(eng, st, name, rt, a, ts):
    x = a[0]
    if "fabs" in name:
        if isinstance(x, float):
            return abs(x)
        if x.kind == "bits":
            return Flt("bits", eng.U(st, x.v, 63))
        p = real(eng, st, x)[0]
        return x if sign(eng, st, p) >= 0 else Flt("real", pscale(p, -1), lambda env, c=conc(x): abs(c(env)))
    if "sqrt" in name:
        if isinstance(x, float):
            return math.sqrt(x)
        if x.kind == "int" and eng.must(st, ge(x.v, 0)):
            return Flt("sqrt", x.v)
    if "fpto" in name:
        return toint(eng, st, x, rt.n, "fptosi" in name, True)
    raise sym.Unsupported("fp " + name)


# ---- bits of a computed double, and back in specifications
VALUE = {}


def bits_atom(eng, st, f):
    """an integer variable for the bit pattern; VALUE gives its exact value"""
    p = real(eng, st, f)[0]
    c = conc(f)
    key = ("fbits", p)
    a = eng.fresh(st, key, "bits", 0, (1 << 64) - 1, ("fn", lambda env: to_bits(c(env))))
    VALUE[a] = p
    return atom_poly(a)


def value(b):
    """exact value of the double with the given bits (integer or variable); None when it is not finite"""
    if type(b) is not Poly:
        x = from_bits(b)
        return Fraction(x) if math.isfinite(x) else None
    (m, k), = b.t.items()
    if k != 1 or b.c or len(m) != 1 or m[0] not in VALUE:
        raise sym.Unsupported("not the bits of a computed double")
    return VALUE[m[0]]
