from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")
SRC = {}
for b in (8, 16, 32, 64, 128):
    SRC["i%d" % b] = (-(1 << b - 1), (1 << b - 1) - 1)
    SRC["u%d" % b] = (0, (1 << b) - 1)
SRC["isize"], SRC["usize"] = SRC["i64"], SRC["u64"]


def tasks_for(t, p):
    lo, hi = rng(t)
    N = 10 ** p
    out = []
    for s, (l, h) in SRC.items():
        def spec(A, R):
            v = pscale(A[0], N)
            return code_is(R, {0: f_and(eq(R.o[0], v), between(v, lo, hi)), CONVERT: f_or(lt(v, lo), gt(v, hi))})
        out.append(Task("from_%s_%s_%d" % (s, t, p), "match FixedPoint::<%s, U%d>::try_from(io.i[0] as %s) { Ok(v) => { io.o[0] = *v.as_bits() as i128; 0 } Err(_) => 5 }" % (t, p, s),
                        [("v", l, h)], spec=spec))
    return out


def plan(tier):
    pl = Plan("C12", "all values of the 12 primitive integer types; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)])
    return pl
