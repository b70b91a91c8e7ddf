import re

from ..runner import Task
from ..check import Plan
from ..spec import *
from .. import kernel

# layout, precision, promoted-from integer type
QUICK = (("i16", 2, "i8"), ("i32", 4, "i16"), ("i64", 9, "i32"), ("i64", 9, "i8"), ("i128", 18, "i64"))
FULL = tuple((t, p, n) for t, p in (("i16", 2), ("i32", 4), ("i64", 9), ("i64", 18), ("i128", 18)) for n in ("i8", "i16", "i32", "i64", "i128")
             if BITS[n] <= BITS[t])

EXTRA = '''
macro_rules! nt { ($n:ident, $t:ty) => {
    #[derive(Clone, Copy, PartialEq, PartialOrd)] pub struct $n(pub $t);
    impl From<$t> for $n { fn from(x: $t) -> Self { $n(x) } }
    impl fixnum::ops::Zero for $n { const ZERO: Self = $n(<$t as fixnum::ops::Zero>::ZERO); }
    impl fixnum::ops::Bounded for $n { const MIN: Self = $n(<$t as fixnum::ops::Bounded>::MIN); const MAX: Self = $n(<$t as fixnum::ops::Bounded>::MAX); }
} }
fn put<T: Copy>(io: &mut Io, k: usize, r: Result<T, ArithmeticError>, f: impl Fn(T) -> i128) {
    match r { Ok(v) => { io.o[k] = f(v); io.o[k + 1] = 0; } Err(e) => { io.o[k + 1] = aerr(e) as i128; } }
}
'''

MOD = '''
pub mod %(m)s {
    use super::{*, put};
    use fixnum::impl_op;
    pub type F = FixedPoint<%(t)s, U%(p)d>;
    nt!(Price, F); nt!(Delta, F); nt!(Wide, %(t)s); nt!(Size, %(n)s); nt!(Vol, F);
    impl_op!(Price [cadd] Delta = Price);
    impl_op!(Price [csub] Price = Delta);
    impl_op!(Wide [cadd] Size = Wide);
    impl_op!(Size [csub] Wide = Wide);
    impl_op!(Price [cmul] Size = Vol);
    impl_op!(Size [cmul] Price = Vol);
    impl_op!(Wide [cmul] Size = Wide);
    impl_op!(Price [rmul] Delta = Vol);
    impl_op!(Price [rdiv] Price = Delta);
    impl_op!(Vol [rdiv] Size = Price);
    impl_op!(Size [rdiv] Price = Vol);
    pub fn f(x: i128) -> F { F::from_bits(x as %(t)s) }
    pub fn b(x: F) -> i128 { *x.as_bits() as i128 }
    pub fn w(x: i128) -> %(t)s { x as %(t)s }
    pub fn s(x: i128) -> %(n)s { x as %(n)s }
    pub fn ow(x: %(t)s) -> i128 { x as i128 }
}
'''


def spec(A, R):
    return f_and(eq(R.code, 0), eq(R.o[0], R.o[2]), eq(R.o[1], R.o[3]))


def tasks_for(t, p, n):
    lo, hi = rng(t)
    nlo, nhi = rng(n)
    m = "m_%s_%d_%s" % (t, p, n)
    F_ = lambda k: ("x%d" % k, lo, hi)
    S_ = lambda k: ("s%d" % k, nlo, nhi)
    md = ("mode", 0, 2)
    # name, wrapped expression, projection of the result, direct expression, projection, inputs
    C = [
        ("cadd", "Price(f(io.i[0])).cadd(Delta(f(io.i[1])))", "|v: Price| b(v.0)", "f(io.i[0]).cadd(f(io.i[1]))", "b", [F_(0), F_(1)]),
        ("csub", "Price(f(io.i[0])).csub(Price(f(io.i[1])))", "|v: Delta| b(v.0)", "f(io.i[0]).csub(f(io.i[1]))", "b", [F_(0), F_(1)]),
        ("caddi", "Wide(w(io.i[0])).cadd(Size(s(io.i[1])))", "|v: Wide| ow(v.0)", "w(io.i[0]).cadd(w(io.i[1]))", "ow", [F_(0), S_(1)]),
        ("csubi", "Size(s(io.i[0])).csub(Wide(w(io.i[1])))", "|v: Wide| ow(v.0)", "w(io.i[0]).csub(w(io.i[1]))", "ow", [S_(0), F_(1)]),
        ("cmul", "Price(f(io.i[0])).cmul(Size(s(io.i[1])))", "|v: Vol| b(v.0)", "f(io.i[0]).cmul(w(io.i[1]))", "b", [F_(0), S_(1)]),
        ("cmulr", "Size(s(io.i[0])).cmul(Price(f(io.i[1])))", "|v: Vol| b(v.0)", "w(io.i[0]).cmul(f(io.i[1]))", "b", [S_(0), F_(1)]),
        ("cmuli", "Wide(w(io.i[0])).cmul(Size(s(io.i[1])))", "|v: Wide| ow(v.0)", "w(io.i[0]).cmul(w(io.i[1]))", "ow", [F_(0), S_(1)]),
        ("sadd", "Ok(Price(f(io.i[0])).saturating_add(Delta(f(io.i[1]))))", "|v: Price| b(v.0)", "Ok(f(io.i[0]).saturating_add(f(io.i[1])))", "b", [F_(0), F_(1)]),
        ("ssub", "Ok(Price(f(io.i[0])).saturating_sub(Price(f(io.i[1]))))", "|v: Delta| b(v.0)", "Ok(f(io.i[0]).saturating_sub(f(io.i[1])))", "b", [F_(0), F_(1)]),
        ("saddi", "Ok(Wide(w(io.i[0])).saturating_add(Size(s(io.i[1]))))", "|v: Wide| ow(v.0)", "Ok(CheckedAdd::saturating_add(w(io.i[0]), w(io.i[1])))", "ow", [F_(0), S_(1)]),
        ("ssubi", "Ok(Size(s(io.i[0])).saturating_sub(Wide(w(io.i[1]))))", "|v: Wide| ow(v.0)", "Ok(CheckedSub::saturating_sub(w(io.i[0]), w(io.i[1])))", "ow", [S_(0), F_(1)]),
        ("smul", "Ok(Price(f(io.i[0])).saturating_mul(Size(s(io.i[1]))))", "|v: Vol| b(v.0)", "Ok(f(io.i[0]).saturating_mul(w(io.i[1])))", "b", [F_(0), S_(1)]),
        ("smulr", "Ok(Size(s(io.i[0])).saturating_mul(Price(f(io.i[1]))))", "|v: Vol| b(v.0)", "Ok(CheckedMul::saturating_mul(w(io.i[0]), f(io.i[1])))", "b", [S_(0), F_(1)]),
        ("smuli", "Ok(Wide(w(io.i[0])).saturating_mul(Size(s(io.i[1]))))", "|v: Wide| ow(v.0)", "Ok(CheckedMul::saturating_mul(w(io.i[0]), w(io.i[1])))", "ow", [F_(0), S_(1)]),
        ("rmul", "Price(f(io.i[0])).rmul(Delta(f(io.i[1])), mode(io.i[2]))", "|v: Vol| b(v.0)", "f(io.i[0]).rmul(f(io.i[1]), mode(io.i[2]))", "b", [F_(0), F_(1), md]),
        ("srmul", "Ok(Price(f(io.i[0])).saturating_rmul(Delta(f(io.i[1])), mode(io.i[2])))", "|v: Vol| b(v.0)", "Ok(f(io.i[0]).saturating_rmul(f(io.i[1]), mode(io.i[2])))", "b", [F_(0), F_(1), md]),
        ("rdiv", "Price(f(io.i[0])).rdiv(Price(f(io.i[1])), mode(io.i[2]))", "|v: Delta| b(v.0)", "f(io.i[0]).rdiv(f(io.i[1]), mode(io.i[2]))", "b", [F_(0), F_(1), md]),
        ("rdivi", "Vol(f(io.i[0])).rdiv(Size(s(io.i[1])), mode(io.i[2]))", "|v: Price| b(v.0)", "f(io.i[0]).rdiv(w(io.i[1]), mode(io.i[2]))", "b", [F_(0), S_(1), md]),
        ("irdiv", "Size(s(io.i[0])).rdiv(Price(f(io.i[1])), mode(io.i[2]))", "|v: Vol| b(v.0)",
         "F::try_from(w(io.i[0])).map_err(|_| ArithmeticError::Overflow).and_then(|l| l.rdiv(f(io.i[1]), mode(io.i[2])))", "b", [S_(0), F_(1), md]),
    ]
    out = []
    for nm, we, wp, de, dp, ins in C:
        body = "use %s::*; put(io, 0, { let io = &*io; %s }, %s); put(io, 2, { let io = &*io; %s }, %s); 0" % (m, we, wp, de, dp)
        out.append(Task("%s_%s_%d_%s" % (nm, t, p, n), body, ins, spec=spec, splits=mode_split() if len(ins) == 3 else None,
                        weight=50 if t == "i128" and nm in ("rmul", "srmul", "rdiv", "irdiv") else 1))
    return out


def plan(tier):
    quick = tier == "quick"
    cfg = QUICK if quick else FULL
    pl = Plan("C21", "all operand pairs; (layout, precision, promoted integer) in %s" % (cfg,),
              assumptions=["the wrapped operation itself is the reference (its own exactness is C01-C06)"])
    extra = EXTRA + "".join(MOD % dict(m="m_%s_%d_%s" % c, t=c[0], p=c[1], n=c[2]) for c in cfg)
    pl.crate("std", [x for c in cfg for x in tasks_for(*c) if not (quick and c[0] == "i128" and re.match("r?div|irdiv", x.name))], extra=extra)
    if quick:  # the wrappers are the same macro for every layout: 128-bit quotients are left to the thorough tier (and to C02, C03)
        pl.lemmas.append(("std", kernel.wide_lemmas([10 ** p for t, p, _ in cfg if t == "i128"])))
    else:
        pl.lemmas.append(("std", kernel.wide_lemmas((), any_=True)))
    return pl
