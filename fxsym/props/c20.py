from ..runner import Task
from ..check import Plan
from ..spec import *
from .. import kernel

NOTE = "The 256-bit type is private; a cfg(fixnum_verif) hook re-exports it. Division: every dividend below 2^255 in magnitude, every divisor up to 2^127 in magnitude; product: every factor pair whose product fits, one factor up to 2^127 in magnitude."
M127, M128, M255 = 1 << 127, 1 << 128, 1 << 255

EXTRA = '''
use fixnum::_verif::I256;
#[inline(never)]
pub fn big(lo: i128, hi: i128) -> I256 {
    let (l, h) = (lo as u128, hi as u128);
    unsafe { core::mem::transmute::<[u64; 4], I256>([l as u64, (l >> 64) as u64, h as u64, (h >> 64) as u64]) }
}
#[inline(never)]
pub fn put(io: &mut Io, x: I256) -> i32 {
    let w = unsafe { core::mem::transmute::<I256, [u64; 4]>(x) };
    io.o[0] = w[0] as i128; io.o[1] = w[1] as i128; io.o[2] = w[2] as i128; io.o[3] = w[3] as i64 as i128; 0
}
'''


def val(lo, hi):
    return padd(lo, pscale(hi, M128))


def out(R):
    return kernel.number(R.o)


X = [("xl", 0, M128 - 1), ("xh", -M127, M127 - 1)]
Y = [("yl", 0, M128 - 1), ("yh", -M127, M127 - 1)]
N = ("y", -M127, M127 - 1)
x_ = "big(io.i[0], io.i[1])"
y_ = "big(io.i[2], io.i[3])"


def fits(v):
    return between(v, -M255, M255 - 1)


def tasks():
    def two(f):
        return lambda A: f(val(A[0], A[1]), val(A[2], A[3]))

    def bit(o, k, f):
        return None
    T = [
        Task("add", "let r = %s + %s; put(io, r)" % (x_, y_), X + Y, pre=two(lambda x, y: fits(padd(x, y))),
             spec=lambda A, R: eq(out(R), two(padd)(A))),
        Task("sub", "let r = %s - %s; put(io, r)" % (x_, y_), X + Y, pre=two(lambda x, y: fits(psub(x, y))),
             spec=lambda A, R: eq(out(R), two(psub)(A))),
        Task("neg", "let r = -%s; put(io, r)" % x_, X, pre=lambda A: gt(val(*A), -M255), spec=lambda A, R: eq(out(R), pscale(val(*A), -1))),
        Task("cmp", "let (x, y) = (%s, %s); io.o[0] = x.cmp(&y) as i8 as i128; io.o[1] = x.partial_cmp(&y).unwrap() as i8 as i128; "
             "io.o[2] = (x == y) as i128 + 2 * (x < y) as i128 + 4 * (x > y) as i128 + 8 * (x <= y) as i128 + 16 * (x >= y) as i128; 0" % (x_, y_), X + Y,
             spec=two_res(lambda x, y, R: f_or(*[f_and(f, eq(R.o[0], c), eq(R.o[1], c), eq(R.o[2], b))
                                                 for f, c, b in ((lt(x, y), -1, 2 + 8), (eq(x, y), 0, 1 + 8 + 16), (gt(x, y), 1, 4 + 16))]))),
        Task("mul_narrow", "let r = I256::from(io.i[0]) * I256::from(io.i[1]); put(io, r)", [("x", -M127, M127 - 1), N],
             spec=lambda A, R: eq(out(R), pmul(A[0], A[1])), splits=signs(lambda A: A[0], lambda A: A[1]), weight=50),
        Task("mul", "let r = %s * I256::from(io.i[2]); put(io, r)" % x_, X + [N], pre=lambda A: f_and(gt(val(A[0], A[1]), -M255), between(pmul(val(A[0], A[1]), A[2]), 1 - M255, M255 - 1)),
             spec=lambda A, R: eq(out(R), pmul(val(A[0], A[1]), A[2])), splits=signs(lambda A: val(A[0], A[1]), lambda A: A[2]), weight=50),
        Task("mul_swap", "let r = I256::from(io.i[2]) * %s; put(io, r)" % x_, X + [N], pre=lambda A: f_and(gt(val(A[0], A[1]), -M255), between(pmul(val(A[0], A[1]), A[2]), 1 - M255, M255 - 1)),
             spec=lambda A, R: eq(out(R), pmul(val(A[0], A[1]), A[2])), splits=signs(lambda A: val(A[0], A[1]), lambda A: A[2]), weight=50),
        Task("div", "let r = %s / I256::from(io.i[2]); put(io, r)" % x_, X + [N],
             pre=lambda A: f_and(ne(A[2], 0), gt(val(A[0], A[1]), -M255)),
             spec=lambda A, R: quotient(val(A[0], A[1]), A[2], out(R)), splits=signs(lambda A: val(A[0], A[1]), lambda A: A[2]), weight=50),
        Task("from_i128", "put(io, I256::from(io.i[0])); ", [("x", -M127, M127 - 1)], spec=lambda A, R: eq(out(R), A[0])),
        Task("from_i128_c", "put(io, I256::from_i128(io.i[0])); ", [("x", -M127, M127 - 1)], spec=lambda A, R: eq(out(R), A[0])),
        Task("from_u128", "put(io, I256::from(io.i[0] as u128)); ", [("x", 0, M128 - 1)], spec=lambda A, R: eq(out(R), A[0])),
        Task("to_i128", "match i128::try_from(%s) { Ok(v) => { io.o[0] = v; 0 } Err(e) => aerr(e) }" % x_, X,
             spec=lambda A, R: f_or(f_and(between(val(*A), -M127, M127 - 1), eq(R.code, 0), eq(R.o[0], val(*A))),
                                    f_and(f_not(between(val(*A), -M127, M127 - 1)), eq(R.code, OVERFLOW)))),
        Task("to_u128", "match u128::try_from(%s) { Ok(v) => { io.o[0] = (v >> 64) as i128; io.o[1] = v as u64 as i128; 0 } Err(_) => 5 }" % x_, X,
             spec=lambda A, R: f_or(f_and(between(val(*A), 0, M128 - 1), eq(R.code, 0), eq(padd(pscale(R.o[0], 1 << 64), R.o[1]), val(*A))),
                                    f_and(f_not(between(val(*A), 0, M128 - 1)), eq(R.code, CONVERT)))),
    ]
    for nm, e, v in (("zero", "<I256 as fixnum::ops::Zero>::ZERO", 0), ("one", "<I256 as fixnum::ops::One>::ONE", 1), ("i128max", "I256::I128_MAX", M127 - 1),
                     ("i128min", "I256::I128_MIN", -M127), ("u128max", "I256::U128_MAX", M128 - 1), ("max", "I256::MAX", M255 - 1), ("min", "I256::MIN", -M255)):
        T.append(Task("const_" + nm, "put(io, %s)" % e, [], spec=lambda A, R, v=v: eq(out(R), v)))
    for k, d in enumerate(kernel.HARD_DIVISORS):
        T.append(Task("div_by_%d" % k, "let r = %s / I256::from(%di128); put(io, r)" % (x_, d), [X[0], ("xh", 0, (1 << 63) - 1)],
                      spec=lambda A, R, d=d: quotient(val(A[0], A[1]), d, out(R)), weight=60))
    for t in T:
        if t.name.startswith("from_") :
            t.body = t.body.rstrip("; ")
    return T


def two_res(f):
    return lambda A, R: f(val(A[0], A[1]), val(A[2], A[3]), R)


def quotient(n, d, q):
    r = psub(n, pmul(q, d))
    return f_and(f_imp(f_and(ge(n, 0), gt(d, 0)), f_and(ge(r, 0), lt(r, d))), f_imp(f_and(ge(n, 0), lt(d, 0)), f_and(ge(r, 0), lt(r, pscale(d, -1)))),
                 f_imp(f_and(lt(n, 0), gt(d, 0)), f_and(le(r, 0), gt(r, pscale(d, -1)))), f_imp(f_and(lt(n, 0), lt(d, 0)), f_and(le(r, 0), gt(r, d))))


def signs(x, y):
    return [("%s%s" % (a, b), lambda A, a=a, b=b: f_and(ge(x(A), 0) if a == "p" else lt(x(A), 0), ge(y(A), 0) if b == "p" else lt(y(A), 0)))
            for a in "pn" for b in "pn"]


def plan(tier):
    pl = Plan("C20", "256-bit operands in full; divisors and one factor of a product up to 2^127 in magnitude")
    pl.crate("std", tasks(), features=("i128",), extra=EXTRA)
    pl.lemmas.append(("std", kernel.wide_lemmas((), any_=True)))
    return pl
