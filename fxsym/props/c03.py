from ..runner import Task
from ..check import Plan
from ..spec import *
from .. import kernel
from .c02 import div_spec

LAYOUTS = ("i16", "i32", "i64", "i128")


def tasks_int(t):
    lo, hi = rng(t)
    return [Task("irdiv_%s" % t, ret_int("(io.i[0] as %s).rdiv(io.i[1] as %s, mode(io.i[2]))" % (t, t)),
                 [("a", lo, hi), ("b", lo, hi), ("mode", 0, 2)], spec=div_spec(lo, hi, 1), splits=mode_split())]


def tasks_for(t, p, tier):
    lo, hi = rng(t)
    N = 10 ** p
    ints = [("a", lo, hi), ("b", lo, hi), ("mode", 0, 2)]

    def spec_if(A, R):
        a, b, m = A
        inner = div_spec(lo, hi, N * N)(A, R)
        # an integer that is no fixed-point number may be refused
        aN = pscale(a, N)
        return f_or(inner, f_and(f_or(lt(aN, lo), gt(aN, hi)), eq(R.code, OVERFLOW)))
    out = [Task("frdivi_%s_%d" % (t, p), ret_fx("%s.rdiv(io.i[1] as %s, mode(io.i[2]))" % (fx(t, p, 0), t)), ints,
                spec=div_spec(lo, hi, 1), splits=mode_split()),
           Task("irdivf_%s_%d" % (t, p), ret_fx("(io.i[0] as %s).rdiv(%s, mode(io.i[2]))" % (t, fx(t, p, 1))), ints,
                spec=spec_if, splits=mode_split() if t != "i128" else signed_split(), weight=50 if t == "i128" else 1)]
    return out if t != "i128" or tier != "quick" or p in (0, 1, 9, 18, 19, 20, 29, 38) else out[:1]


def signed_split():
    return [(l + a + b, lambda A, f=f, a=a, b=b: f_and(f(A), ge(A[0], 0) if a == "p" else lt(A[0], 0), ge(A[1], 0) if b == "p" else lt(A[1], 0)))
            for l, f in mode_split() for a in "pn" for b in "pn"]


def plan(tier):
    pl = Plan("C03", "all operand pairs and modes; i8..i128; mixed forms for precisions %s" % {t: list(all_precisions(t)) for t in LAYOUTS})
    ts = [x for t in ("i8", "i16", "i32", "i64", "i128") for x in tasks_int(t)]
    ts += [x for t in LAYOUTS for p in all_precisions(t) for x in tasks_for(t, p, tier)]
    pl.crate("std", ts)
    pl.lemmas.append(("std", kernel.wide_lemmas((), any_=True)))
    return pl
