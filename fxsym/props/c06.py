from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")

# a user's type that implements only the checked operations and inherits the saturating ones
EXTRA = '''
macro_rules! user_type { ($w:ident, $t:ty) => {
    #[derive(Clone, Copy, PartialEq, PartialOrd)] pub struct $w(pub $t);
    impl fixnum::ops::Zero for $w { const ZERO: Self = $w(0); }
    impl Bounded for $w { const MIN: Self = $w(<$t>::MIN); const MAX: Self = $w(<$t>::MAX); }
    impl CheckedAdd for $w { type Output = $w; type Error = (); fn cadd(self, o: $w) -> Result<$w, ()> { self.0.checked_add(o.0).map($w).ok_or(()) } }
    impl CheckedSub for $w { type Output = $w; type Error = (); fn csub(self, o: $w) -> Result<$w, ()> { self.0.checked_sub(o.0).map($w).ok_or(()) } }
    impl CheckedMul for $w { type Output = $w; type Error = (); fn cmul(self, o: $w) -> Result<$w, ()> { self.0.checked_mul(o.0).map($w).ok_or(()) } }
    impl RoundingMul for $w { type Output = $w; type Error = (); fn rmul(self, o: $w, _m: RoundMode) -> Result<$w, ()> { self.0.checked_mul(o.0).map($w).ok_or(()) } }
} }
user_type!(W16, i16); user_type!(W32, i32); user_type!(W64, i64); user_type!(W128, i128);
'''


def clamp(lo, hi, f):
    def spec(A, R):
        v, r = f(A), R.o[0]
        return f_and(eq(R.code, 0), f_or(f_and(between(v, lo, hi), eq(r, v)), f_and(lt(v, lo), eq(r, lo)), f_and(gt(v, hi), eq(r, hi))))
    return spec


OPS = (("saturating_add", padd), ("saturating_sub", psub), ("saturating_mul", pmul))


def tasks_int(t):
    lo, hi = rng(t)
    ints = [("a", lo, hi), ("b", lo, hi)]
    out = []
    for nm, op in OPS:
        sp = clamp(lo, hi, lambda A, op=op: op(A[0], A[1]))
        tr = {"saturating_add": "CheckedAdd", "saturating_sub": "CheckedSub", "saturating_mul": "CheckedMul"}[nm]
        out.append(Task("i%s_%s" % (nm, t), "io.o[0] = %s::%s(io.i[0] as %s, io.i[1] as %s) as i128; 0" % (tr, nm, t, t), ints, spec=sp))
        if t != "i8":
            w = "W" + t[1:]
            out.append(Task("d%s_%s" % (nm, t), "io.o[0] = %s(io.i[0] as %s).%s(%s(io.i[1] as %s)).0 as i128; 0" % (w, t, nm, w, t), ints, spec=sp))
            if nm == "saturating_mul":
                out.append(Task("dsaturating_rmul_%s" % t, "io.o[0] = %s(io.i[0] as %s).saturating_rmul(%s(io.i[1] as %s), mode(io.i[2])).0 as i128; 0" % (w, t, w, t),
                                ints + [("mode", 0, 2)], spec=sp))
    return out


def tasks_for(t, p):
    lo, hi = rng(t)
    two = [("a", lo, hi), ("b", lo, hi)]
    x, y, n = fx(t, p, 0), fx(t, p, 1), "io.i[1] as %s" % t
    e = "io.o[0] = *%s.as_bits() as i128; 0"
    S = lambda op: clamp(lo, hi, lambda A: op(A[0], A[1]))
    return [Task("sadd_%s_%d" % (t, p), e % ("%s.saturating_add(%s)" % (x, y)), two, spec=S(padd)),
            Task("ssub_%s_%d" % (t, p), e % ("%s.saturating_sub(%s)" % (x, y)), two, spec=S(psub)),
            Task("smulfi_%s_%d" % (t, p), e % ("%s.saturating_mul(%s)" % (x, n)), two, spec=S(pmul)),
            Task("smulif_%s_%d" % (t, p), e % ("CheckedMul::<FixedPoint<%s, U%d>>::saturating_mul(io.i[0] as %s, %s)" % (t, p, t, y)), two, spec=S(pmul))]


def plan(tier):
    pl = Plan("C06", "all operand pairs; plain integers i8..i128, a user type with the trait defaults, precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    ts = [x for t in ("i8", "i16", "i32", "i64", "i128") for x in tasks_int(t)]
    ts += [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)]
    pl.crate("std", ts, extra=EXTRA)
    return pl
