from ..runner import Task
from ..check import Plan
from ..spec import *
from .. import kernel


def div_spec(lo, hi, N):
    def spec(A, R):
        a, b, m = A
        num = pscale(a, N)
        return f_and(
            f_imp(eq(b, 0), eq(R.code, DIVZERO)),
            f_imp(ne(b, 0), ratio(num, b, lambda n, d: code_is(R, {0: rounded(R.o[0], n, d, m), OVERFLOW: unrepresentable(n, d, m, lo, hi)}))))
    return spec


def recip_spec(lo, hi, N):
    def spec(A, R):
        b, m = A
        num = N * N
        return f_and(
            f_imp(eq(b, 0), eq(R.code, DIVZERO)),
            f_imp(ne(b, 0), ratio(num, b, lambda n, d: code_is(R, {0: rounded(R.o[0], n, d, m), OVERFLOW: unrepresentable(n, d, m, lo, hi)}))))
    return spec


def tasks_for(t, p):
    lo, hi = rng(t)
    N = 10 ** p
    w = 50 if t == "i128" else 1
    return [Task("rdiv_%s_%d" % (t, p), ret_fx("%s.rdiv(%s, mode(io.i[2]))" % (fx(t, p, 0), fx(t, p, 1))),
                 [("a", lo, hi), ("b", lo, hi), ("mode", 0, 2)], spec=div_spec(lo, hi, N), splits=mode_split(), weight=w),
            Task("recip_%s_%d" % (t, p), ret_fx("%s.recip(mode(io.i[1]))" % fx(t, p, 0)),
                 [("b", lo, hi), ("mode", 0, 2)], spec=recip_spec(lo, hi, N), splits=mode_split(), weight=w)]


def hard(p, k, d):
    lo, hi = rng("i128")
    return Task("rdiv_i128_%d_by_%d" % (p, k), ret_fx("%s.rdiv(FixedPoint::<i128, U%d>::from_bits(%di128), mode(io.i[1]))" % (fx("i128", p, 0), p, d)),
                [("a", 0, hi), ("mode", 0, 2)], spec=lambda A, R: div_spec(lo, hi, 10 ** p)([A[0], d, A[1]], R), weight=60)


LAYOUTS = ("i16", "i32", "i64", "i128")


def plan(tier):
    pl = Plan("C02", "all dividends, divisors and modes; precisions %s" % {t: list(all_precisions(t)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in all_precisions(t) for x in tasks_for(t, p)])
    pl.crates[0][1].extend(hard(p, k, d) for p in (9, 18, 38) for k, d in enumerate(kernel.HARD_DIVISORS))
    pl.lemmas.append(("std", kernel.wide_lemmas((), any_=True)))
    return pl
