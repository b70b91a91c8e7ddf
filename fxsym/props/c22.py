from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")
INTS = ("i8", "i16", "i32", "i64", "i128")

EXTRA = '''
pub struct Rec { pub b: [u8; 24], pub n: usize }
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, x: &[u8]) { let mut i = 0; while i < x.len() { self.b[self.n] = x[i]; self.n += 1; i += 1; } }
}
pub fn rec<T: core::hash::Hash>(x: &T) -> (u128, u64, usize) {
    let mut r = Rec { b: [0; 24], n: 0 };
    x.hash(&mut r);
    (u128::from_le_bytes(r.b[..16].try_into().unwrap()), u64::from_le_bytes(r.b[16..].try_into().unwrap()), r.n)
}
'''


def tasks_for(t, p):
    lo, hi = rng(t)
    T = "FixedPoint::<%s, U%d>" % (t, p)
    out = []
    a = ("a", lo, hi)
    b = ("b", lo, hi)
    out.append(Task("bits_%s_%d" % (t, p),
                    "let x = %s; io.o[0] = *x.as_bits() as i128; io.o[1] = x.into_bits() as i128; let y = x; io.o[2] = y.clone().into_bits() as i128; 0" % fx(t, p, 0), [a],
                    spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], A[0]), eq(R.o[1], A[0]), eq(R.o[2], A[0]))))

    def spec_cmp(A, R):
        x, y = A

        def case(c, e, o, ltb, leb, gtb, geb):
            # o[0]: eq, ne, lt, le, gt, ge as bits; o[1]: cmp; o[2]: partial_cmp
            bits = e + 2 * (1 - e) + 4 * ltb + 8 * leb + 16 * gtb + 32 * geb
            return f_imp(c, f_and(eq(R.o[0], bits), eq(R.o[1], o), eq(R.o[2], o)))
        return f_and(eq(R.code, 0), case(lt(x, y), 0, -1, 1, 1, 0, 0), case(eq(x, y), 1, 0, 0, 1, 0, 1), case(gt(x, y), 0, 1, 0, 0, 1, 1),
                     f_imp(le(x, y), f_and(eq(R.o[3], 0))), f_imp(gt(x, y), eq(R.o[3], 1)))
    out.append(Task("cmp_%s_%d" % (t, p), '''let (x, y) = (%s, %s);
        io.o[0] = (x == y) as i128 + 2 * (x != y) as i128 + 4 * (x < y) as i128 + 8 * (x <= y) as i128 + 16 * (x > y) as i128 + 32 * (x >= y) as i128;
        io.o[1] = x.cmp(&y) as i8 as i128; io.o[2] = match x.partial_cmp(&y) { Some(o) => o as i8 as i128, None => 9 };
        io.o[3] = (x.max(y) == x && x != y) as i128; 0''' % (fx(t, p, 0), fx(t, p, 1)), [a, b], spec=spec_cmp))

    def spec_hash(A, R):
        # equal numbers have equal raw values (cmp task), so one symbolic raw value makes both
        return f_and(eq(R.code, 0), eq(R.o[0], R.o[1]), eq(R.o[2], R.o[3]))
    out.append(Task("hash_%s_%d" % (t, p), '''let (h, g) = (rec(&%s), rec(&%s));
        io.o[0] = h.0 as i128; io.o[1] = g.0 as i128; io.o[2] = h.1 as i128 + ((h.2 as i128) << 64); io.o[3] = g.1 as i128 + ((g.2 as i128) << 64); 0''' % (fx(t, p, 0), fx(t, p, 0)), [a], spec=spec_hash))
    out.append(Task("const_%s_%d" % (t, p), '''io.o[0] = *%s::default().as_bits() as i128; io.o[1] = *<%s as fixnum::ops::Zero>::ZERO.as_bits() as i128;
        io.o[2] = *<%s as fixnum::ops::One>::ONE.as_bits() as i128; io.o[3] = *%s::EPSILON.as_bits() as i128; %s::PRECISION''' % (T, T, T, T, T), [],
                    spec=lambda A, R: f_and(eq(R.code, p), eq(R.o[0], 0), eq(R.o[1], 0), eq(R.o[2], 10 ** p), eq(R.o[3], 1))))
    out.append(Task("bound_%s_%d" % (t, p), '''io.o[0] = *<%s as fixnum::ops::Bounded>::MIN.as_bits() as i128; io.o[1] = *<%s as fixnum::ops::Bounded>::MAX.as_bits() as i128;
        let x = %s; io.o[2] = (x >= <%s as fixnum::ops::Bounded>::MIN && x <= <%s as fixnum::ops::Bounded>::MAX) as i128;
        io.o[3] = (x == <%s as fixnum::ops::Zero>::ZERO) as i128; 0''' % (T, T, fx(t, p, 0), T, T, T), [a],
                    spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], lo), eq(R.o[1], hi), eq(R.o[2], 1), f_or(f_and(eq(A[0], 0), eq(R.o[3], 1)), f_and(ne(A[0], 0), eq(R.o[3], 0))))))
    return out


def int_task(t):
    lo, hi = rng(t)
    return Task("iconst_%s" % t, '''io.o[0] = <%s as fixnum::ops::Zero>::ZERO as i128; io.o[1] = <%s as fixnum::ops::One>::ONE as i128;
        io.o[2] = <%s as fixnum::ops::Bounded>::MIN as i128; io.o[3] = <%s as fixnum::ops::Bounded>::MAX as i128; 0''' % (t, t, t, t), [],
                spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], 0), eq(R.o[1], 1), eq(R.o[2], lo), eq(R.o[3], hi)))


def plan(tier):
    pl = Plan("C22", "all numbers and pairs; precisions %s" % {t: list(precisions(t, tier)) for t in LAYOUTS})
    pl.crate("std", [x for t in LAYOUTS for p in precisions(t, tier) for x in tasks_for(t, p)] + [int_task(t) for t in INTS], extra=EXTRA)
    return pl
