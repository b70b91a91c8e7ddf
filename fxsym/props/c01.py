from ..runner import Task
from ..check import Plan
from ..spec import *
from .. import kernel


def tasks_for(t, p):
    lo, hi = rng(t)
    N = 10 ** p

    def spec(A, R):
        a, b, m = A
        n = pmul(a, b)
        return code_is(R, {0: rounded(R.o[0], n, N, m), OVERFLOW: unrepresentable(n, N, m, lo, hi)})

    def spec_sat(A, R):
        a, b, m = A
        n = pmul(a, b)
        r = R.o[0]
        bad = unrepresentable(n, N, m, lo, hi)
        return code_is(R, {0: f_or(f_and(f_not(bad), rounded(r, n, N, m)),
                                   f_and(bad, f_or(f_and(eq(r, hi), gt(n, 0)), f_and(eq(r, lo), lt(n, 0)))))})
    ints = [("a", lo, hi), ("b", lo, hi), ("mode", 0, 2)]
    w = 50 if t == "i128" else 1
    return [Task("rmul_%s_%d" % (t, p), ret_fx("%s.rmul(%s, mode(io.i[2]))" % (fx(t, p, 0), fx(t, p, 1))), ints, spec=spec,
                 splits=mode_split(), weight=w),
            Task("srmul_%s_%d" % (t, p), "io.o[0] = *%s.saturating_rmul(%s, mode(io.i[2])).as_bits() as i128; 0" % (fx(t, p, 0), fx(t, p, 1)),
                 ints, spec=spec_sat, splits=mode_split(), weight=w)]


LAYOUTS = ("i16", "i32", "i64", "i128")


def plan(tier):
    pl = Plan("C01", "all operand pairs and all three modes; precisions %s" % {t: list(all_precisions(t)) for t in LAYOUTS})
    ts = []
    for t in LAYOUTS:
        for p in all_precisions(t):
            ts += tasks_for(t, p)
    pl.crate("std", ts)
    pl.lemmas.append(("std", kernel.wide_lemmas([10 ** p for p in all_precisions("i128")])))
    return pl
