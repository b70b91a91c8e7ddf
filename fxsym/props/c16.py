from ..runner import Task
from ..check import Plan
from ..spec import *
from .. import fp

LAYOUTS = ("i16", "i32", "i64", "i128")
REL = 1 << 50  # four units of double precision


def accurate(v, a, N):
    """|v - a/N| <= |a/N| / REL"""
    d = pscale(psub(pscale(v, N), a), REL)
    n = pscale(a, -1)
    return f_and(f_imp(ge(a, 0), f_and(ge(a, d), ge(d, n))), f_imp(lt(a, 0), f_and(ge(n, d), ge(d, a))))


def tasks_for(t, p):
    lo, hi = rng(t)
    N = 10 ** p
    T = "FixedPoint::<%s, U%d>" % (t, p)

    def spec(A, R):
        v = fp.value(R.o[0])
        return False if v is None else f_and(eq(R.code, 0), accurate(v, A[0], N))
    out = [Task("tof64_%s_%d" % (t, p), "io.o[0] = f64::from(%s).to_bits() as i128; 0" % fx(t, p, 0), [("a", lo, hi)], spec=spec)]
    top = hi // N
    es = {0} | {e for e in (1, 5, 10, 20, 40, 60, 70, 74) if top >> e}
    for e in sorted(es):
        k = min(top >> e, 1 << 53)
        if k < 1:
            continue

        def exact(A, R, e=e):
            v = fp.value(R.o[0])
            return False if v is None else f_and(eq(R.code, 0), eq(v, pscale(A[0], 1 << e)))
        out.append(Task("int%d_f64_%s_%d" % (e, t, p), "io.o[0] = f64::from(%s::from_bits((io.i[0] * %di128) as %s)).to_bits() as i128; 0" % (T, N << e, t),
                        [("k", -k, k)], spec=exact))
    return out


def plan(tier):
    pl = Plan("C16", "all numbers; accuracy of four units in the last place (2^-50 relative); all integers k * 2^e of 53 significant bits for e in {0,1,5,10,20,40,60,70,74}; precisions %s" % {t: list(precisions(t, "thorough")) for t in LAYOUTS},
              assumptions=["hardware double arithmetic is correctly rounded IEEE 754"])
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, "thorough") for x in tasks_for(t, p)])
    return pl
