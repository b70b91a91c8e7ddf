from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")


def tasks_for(t, p):
    lo, hi = rng(t)

    def spec(A, R):
        a, b, m = A[0], A[1], None
        r, k = R.o[0], R.o[1]
        # r = b * trunc(a / b): |r| <= |a|, same side, |a - r| < |b|, r a multiple of b (k is its quotient as divided by the harness)
        d = psub(a, r)

        def side(a, b, r):  # a >= 0, b > 0
            d = psub(a, r)
            return f_and(ge(r, 0), ge(d, 0), lt(d, b))
        n = lambda x: pscale(x, -1)
        body = f_and(
            f_imp(f_and(ge(a, 0), gt(b, 0)), side(a, b, r)), f_imp(f_and(ge(a, 0), lt(b, 0)), side(a, n(b), r)),
            f_imp(f_and(lt(a, 0), gt(b, 0)), side(n(a), b, n(r))), f_imp(f_and(lt(a, 0), lt(b, 0)), side(n(a), n(b), n(r))),
            eq(R.o[2], 0))
        return f_and(eq(R.code, 0), f_imp(eq(b, 0), eq(r, a)), f_imp(ne(b, 0), f_or(body, f_and(eq(a, lo), eq(b, -1), eq(r, a)))))
    body = ("let r = *%s.round_towards_zero_by(%s).as_bits(); io.o[0] = r as i128; let b = io.i[1] as %s; "
            "io.o[2] = if b == 0 || b == -1 { 0 } else { (r %% b) as i128 }; 0") % (fx(t, p, 0), fx(t, p, 1), t)
    return [Task("rtz_%s_%d" % (t, p), body, [("a", lo, hi), ("b", lo, hi)], spec=spec)]


def plan(tier):
    pl = Plan("C09", "all numbers and steps; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)])
    return pl
