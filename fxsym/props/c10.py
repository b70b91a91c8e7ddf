from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")


def tasks_for(t, p):
    lo, hi = rng(t)
    K = len(str(hi)) - 1

    def spec(A, R):
        a, r = A[0], R.o[0]

        def pos(a, r):
            return code_is(R, {0: f_or(*[f_and(eq(r, 10 ** k), le(a, 10 ** k), gt(a, 10 ** (k - 1) if k else 0)) for k in range(K + 1)]),
                               OVERFLOW: gt(a, 10 ** K)})
        return f_or(f_and(eq(a, 0), eq(R.code, 0), eq(r, 1)), f_and(gt(a, 0), pos(a, r)), f_and(lt(a, 0), pos(pscale(a, -1), pscale(r, -1))))
    return [Task("npot_%s_%d" % (t, p), ret_fx("%s.next_power_of_ten()" % fx(t, p, 0)), [("a", lo, hi)], spec=spec)]


def plan(tier):
    pl = Plan("C10", "all numbers; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)])
    return pl
