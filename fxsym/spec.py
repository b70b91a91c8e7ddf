"""Specification vocabulary: exact rationals and rounding, over polynomials or plain integers alike."""
from .poly import *

BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
MAXP = {"i16": 4, "i32": 9, "i64": 18, "i128": 38}
QUICK_P = {"i16": range(5), "i32": range(10), "i64": range(19), "i128": range(39)}
OVERFLOW, DIVZERO, DOMAIN, CONVERT = 1, 2, 3, 5


def rng(t):
    b = BITS[t]
    return -(1 << b - 1), (1 << b - 1) - 1


def all_precisions(t):
    return tuple(range(MAXP[t] + 1))


def precisions(t, tier):
    return QUICK_P[t] if tier == "quick" else tuple(range(MAXP[t] + 1))


def bymode(mode, fl, ne_, ce):
    return f_and(f_imp(eq(mode, 0), fl), f_imp(eq(mode, 1), ne_), f_imp(eq(mode, 2), ce))


def rounded(r, n, d, mode, away=True):
    """r = n/d rounded as asked, d > 0"""
    rd = pmul(r, d)
    k = psub(n, rd)  # remainder of the answer
    fl = f_and(ge(k, 0), lt(k, d))
    ce = f_and(ge(pscale(k, -1), 0), lt(pscale(k, -1), d))
    k2 = pscale(k, 2)
    near = f_and(ge(k2, pscale(d, -1)), le(k2, d))
    if away:
        # a tie goes to the side away from zero
        near = f_and(near, f_imp(f_and(ge(n, 0)), lt(k2, d)), f_imp(lt(n, 0), gt(k2, pscale(d, -1))))
    return bymode(mode, fl, near, ce)


def unrepresentable(n, d, mode, lo, hi):
    """n/d rounded as asked lies outside lo..hi (lo < 0 < hi), d > 0"""
    fl = f_or(lt(n, pscale(d, lo)), ge(n, pscale(d, hi + 1)))
    ce = f_or(le(n, pscale(d, lo - 1)), gt(n, pscale(d, hi)))
    n2 = pscale(n, 2)
    near = f_or(ge(n2, pscale(d, 2 * hi + 1)), le(n2, pscale(d, 2 * lo - 1)))
    return bymode(mode, fl, near, ce)


def ratio(n, d, k):
    """k(n', d') with the sign of the divisor moved to the numerator; d != 0"""
    if type(d) is not Poly:
        return k(n, d) if d > 0 else k(pscale(n, -1), -d)
    return f_and(f_imp(gt(d, 0), k(n, d)), f_imp(lt(d, 0), k(pscale(n, -1), pscale(d, -1))))


def code_is(R, table):
    """table: {code: formula that has to hold with that result}; other codes are wrong"""
    return f_or(*[f_and(eq(R.code, c), f) for c, f in table.items()])


def F(t, p):
    return "FixedPoint<%s, U%d>" % (t, p)


def fx(t, p, k):
    return "%s::from_bits(io.i[%d] as %s)" % ("FixedPoint::<%s, U%d>" % (t, p), k, t)


def ret_fx(e):
    return "match %s { Ok(v) => { io.o[0] = *v.as_bits() as i128; 0 } Err(e) => aerr(e) }" % e


def ret_int(e):
    return "match %s { Ok(v) => { io.o[0] = v as i128; 0 } Err(e) => aerr(e) }" % e


def mode_split():
    return [("floor", lambda A: eq(A[-1], 0)), ("nearest", lambda A: eq(A[-1], 1)), ("ceil", lambda A: eq(A[-1], 2))]
