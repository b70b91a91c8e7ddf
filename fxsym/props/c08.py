from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")


def tasks_for(t, p):
    lo, hi = rng(t)

    def spec(A, R):
        a, b, m = A
        return f_and(eq(R.code, 0), eq(R.o[0], R.o[1]), rounded(R.o[0], padd(a, b), 2, m, away=False))
    ty = "FixedPoint::<%s, U%d>" % (t, p)
    x, y = fx(t, p, 0), fx(t, p, 1)
    return [Task("half_%s_%d" % (t, p), "io.o[0] = *%s::half_sum(%s, %s, mode(io.i[2])).as_bits() as i128; io.o[1] = *%s::half_sum(%s, %s, mode(io.i[2])).as_bits() as i128; 0" % (ty, x, y, ty, y, x),
                 [("a", lo, hi), ("b", lo, hi), ("mode", 0, 2)], spec=spec, splits=mode_split())]


def plan(tier):
    pl = Plan("C08", "all pairs and modes; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)])
    return pl
