from ..runner import Task
from ..check import Plan
from ..spec import *
from .. import kernel


def tasks_for(t, p):
    lo, hi = rng(t)
    N = 10 ** p

    def spec(A, R):
        a, m = A
        n = pscale(a, N)
        o = R.o[0]
        o2 = pmul(o, o)
        fl = f_and(ge(n, o2), le(n, padd(o2, pscale(o, 2))))
        ce = f_or(f_and(eq(o, 0), eq(n, 0)), f_and(ge(o, 1), le(n, o2), gt(n, padd(psub(o2, pscale(o, 2)), 1))))
        ne_ = f_and(le(n, padd(o2, o)), f_or(eq(o, 0), gt(n, psub(o2, o))))
        return f_and(f_imp(lt(a, 0), eq(R.code, DOMAIN)), f_imp(ge(a, 0), f_and(eq(R.code, 0), ge(o, 0), bymode(m, fl, ne_, ce))))
    return [Task("rsqrt_%s_%d" % (t, p), ret_fx("%s.rsqrt(mode(io.i[1]))" % fx(t, p, 0)), [("a", lo, hi), ("mode", 0, 2)], spec=spec,
                 splits=mode_split(), weight={"i128": 100, "i64": 50}.get(t, 1))]


LAYOUTS = ("i16", "i32", "i64", "i128")


def plan(tier):
    pl = Plan("C04", "all numbers and modes; layouts i16 i32 i64 i128; all precisions",
              assumptions=["hardware double arithmetic is correctly rounded IEEE 754"])
    pl.crate("std", [x for t in LAYOUTS for p in range(MAXP[t] + 1) for x in tasks_for(t, p)])
    pl.lemmas.append(("std", [kernel.root_lemma("i128"), kernel.root_lemma("u128"), kernel.k3_lemma(), kernel.root_lemma("u256", 2)] +
                      kernel.op_lemmas("i256_add", "i256_sub", "i256_neg", "u256_cmp", "i256_cmp", "i256_eq", "i256_mul")))
    return pl
