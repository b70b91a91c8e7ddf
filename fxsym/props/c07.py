from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")


def tasks_for(t, p):
    lo, hi = rng(t)
    N = 10 ** p

    def spec(A, R):
        return f_and(eq(R.code, 0), rounded(R.o[0], A[0], N, A[1]))
    out = [Task("integral_%s_%d" % (t, p), "io.o[0] = %s.integral(mode(io.i[1])) as i128; 0" % fx(t, p, 0), [("a", lo, hi), ("mode", 0, 2)], spec=spec)]
    kmax, kmin = hi // N, -(-lo // N)
    for nm, mode, bad in (("floor", 0, lambda a: lt(a, kmin * N)), ("ceil", 2, lambda a: gt(a, kmax * N)),
                          ("round", 1, lambda a: f_or(ge(pscale(a, 2), (2 * kmax + 1) * N), le(pscale(a, 2), (2 * kmin - 1) * N)))):
        # the result is N*k with k the rounded integer; failing is allowed only when N*k is no number of the type
        def spec2(A, R, mode=mode, bad=bad):
            r = R.o[0]
            a = A[0]
            d = psub(a, r)
            if mode == 0:
                near = between(d, 0, N - 1)
            elif mode == 2:
                near = between(d, 1 - N, 0)
            else:
                d2 = pscale(d, 2)
                near = f_and(between(d2, -N, N), f_imp(ge(a, 0), lt(d2, N)), f_imp(lt(a, 0), gt(d2, -N)))
            return f_and(eq(R.code, 0), near, eq(R.o[1], 0), f_not(bad(a)))
        out.append(Task("%s_%s_%d" % (nm, t, p), "let r = *%s.%s().as_bits() as i128; io.o[0] = r; io.o[1] = r %% %d; 0" % (fx(t, p, 0), nm, N), [("a", lo, hi)], spec=spec2,
                        panic_ok=lambda A, bad=bad: bad(A[0])))
    return out


def plan(tier):
    pl = Plan("C07", "all numbers and modes; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)])
    return pl
