from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")
I32 = (-2 ** 31, 2 ** 31 - 1)


def tasks_for(t, p):
    lo, hi = rng(t)

    def spec(A, R):
        m, e = A
        ok, bad = [], [lt(e, -p), gt(e, 10)]
        for k in range(p + 11):
            N = 10 ** k
            v = pscale(m, N)
            ok.append(f_and(eq(e, k - p), eq(R.o[0], v), between(v, lo, hi)))
            bad.append(f_and(eq(e, k - p), f_or(lt(v, lo), gt(v, hi))))
        return code_is(R, {0: f_or(*ok), CONVERT: f_or(*bad)})

    def spec_to(A, R):
        a, mx = A
        m, e = R.o[0], R.o[1]
        out = []
        K = len(str(hi))
        for k in range(K):
            # m * 10^k == a, e == k - p; as much as mx allows, or not divisible any more
            exact = f_and(eq(e, k - p), eq(pscale(m, 10 ** k), a))
            more = f_or(eq(mx, k - p), ne(R.o[2], 0))  # o[2] = m % 10
            out.append(f_and(exact, le(e, mx), more))
        zero = f_and(eq(a, 0), eq(m, 0), ge(e, -p), le(e, mx))
        return f_and(eq(R.code, 0), f_or(zero, f_and(ne(a, 0), f_or(*out))))
    T = "FixedPoint::<%s, U%d>" % (t, p)
    return [
        Task("fromdec_%s_%d" % (t, p), "match %s::from_decimal(io.i[0] as %s, io.i[1] as i32) { Ok(v) => { io.o[0] = *v.as_bits() as i128; 0 } Err(_) => 5 }" % (T, t),
             [("m", lo, hi), ("e",) + I32], spec=spec),
        Task("todec_%s_%d" % (t, p), "let (m, e) = %s.to_decimal(io.i[1] as i32); io.o[0] = m as i128; io.o[1] = e as i128; io.o[2] = (m %% 10) as i128; 0" % fx(t, p, 0),
             [("a", lo, hi), ("max",) + I32], spec=spec_to, panic_ok=lambda A: lt(A[1], -p)),
    ]


def plan(tier):
    pl = Plan("C11", "all mantissas and i32 exponents; all numbers and i32 maximum exponents; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)])
    return pl
