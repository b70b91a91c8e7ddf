from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")


def exact(lo, hi, f):
    """Ok(f) when representable, Overflow otherwise"""
    def spec(A, R):
        v = f(A)
        return code_is(R, {0: f_and(eq(R.o[0], v), between(v, lo, hi)), OVERFLOW: f_or(lt(v, lo), gt(v, hi))})
    return spec


def absv(a, k):
    return f_and(f_imp(ge(a, 0), k(a)), f_imp(lt(a, 0), k(pscale(a, -1))))


def spec_abs(lo, hi):
    def spec(A, R):
        return absv(A[0], lambda v: code_is(R, {0: f_and(eq(R.o[0], v), le(v, hi)), OVERFLOW: gt(v, hi)}))
    return spec


def spec_sig(A, R):
    a, s = A[0], R.o[0]
    return f_and(eq(R.code, 0), f_or(f_and(gt(a, 0), eq(s, 1)), f_and(eq(a, 0), eq(s, 0)), f_and(lt(a, 0), eq(s, -1))))


def tasks_int(t):
    lo, hi = rng(t)
    ints = [("a", lo, hi), ("b", lo, hi)]
    x, y = "(io.i[0] as %s)" % t, "io.i[1] as %s" % t
    return [Task("icadd_%s" % t, ret_int("%s.cadd(%s)" % (x, y)), ints, spec=exact(lo, hi, lambda A: padd(A[0], A[1]))),
            Task("icsub_%s" % t, ret_int("%s.csub(%s)" % (x, y)), ints, spec=exact(lo, hi, lambda A: psub(A[0], A[1]))),
            Task("icmul_%s" % t, ret_int("%s.cmul(%s)" % (x, y)), ints, spec=exact(lo, hi, lambda A: pmul(A[0], A[1])))]


def tasks_for(t, p):
    lo, hi = rng(t)
    two = [("a", lo, hi), ("b", lo, hi)]
    one = [("a", lo, hi)]
    x, y, n = fx(t, p, 0), fx(t, p, 1), "io.i[1] as %s" % t
    return [Task("cadd_%s_%d" % (t, p), ret_fx("%s.cadd(%s)" % (x, y)), two, spec=exact(lo, hi, lambda A: padd(A[0], A[1]))),
            Task("csub_%s_%d" % (t, p), ret_fx("%s.csub(%s)" % (x, y)), two, spec=exact(lo, hi, lambda A: psub(A[0], A[1]))),
            Task("cmulfi_%s_%d" % (t, p), ret_fx("%s.cmul(%s)" % (x, n)), two, spec=exact(lo, hi, lambda A: pmul(A[0], A[1]))),
            Task("cmulif_%s_%d" % (t, p), ret_fx("(io.i[0] as %s).cmul(%s)" % (t, y)), two, spec=exact(lo, hi, lambda A: pmul(A[0], A[1]))),
            Task("cneg_%s_%d" % (t, p), ret_fx("%s.cneg()" % x), one, spec=exact(lo, hi, lambda A: pscale(A[0], -1))),
            Task("abs_%s_%d" % (t, p), ret_fx("%s.abs()" % x), one, spec=spec_abs(lo, hi)),
            Task("signum_%s_%d" % (t, p), "io.o[0] = %s.signum() as i128; 0" % x, one, spec=spec_sig)]


def plan(tier):
    pl = Plan("C05", "all operands; plain integers i8..i128; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    ts = [x for t in ("i8", "i16", "i32", "i64", "i128") for x in tasks_int(t)]
    ts += [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)]
    pl.crate("std", ts)
    return pl
