from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")

EXTRA = '''
use parity_scale_codec::{Encode, Decode, Compact, CompactAs, Output, Input};
pub struct Out { pub b: [u8; 40], pub n: usize }
impl Output for Out { fn write(&mut self, x: &[u8]) { let mut i = 0; while i < x.len() { self.b[self.n] = x[i]; self.n += 1; i += 1; } } }
pub fn out() -> Out { Out { b: [0; 40], n: 0 } }
// an input that yields the first n bytes and fails beyond them
pub struct In { pub b: [u8; 64], pub n: usize, pub p: usize }
impl Input for In {
    fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> { Ok(Some(self.n - self.p)) }
    fn read(&mut self, x: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
        if x.len() > self.n - self.p { return Err("short".into()); }
        let mut i = 0; while i < x.len() { x[i] = self.b[self.p]; self.p += 1; i += 1; } Ok(())
    }
}
'''


def le_bytes(so, n, signed=True):
    v = 0
    for k in range(n):
        v = padd(v, pscale(so[k], 256 ** k))
    return v


def tasks_for(t, p):
    lo, hi = rng(t)
    B = BITS[t] // 8
    T = "FixedPoint::<%s, U%d>" % (t, p)
    U = "u%d" % BITS[t]

    def two(v, a):
        # v = a mod 2^bits
        return f_or(f_and(ge(a, 0), eq(v, a)), f_and(lt(a, 0), eq(v, padd(a, 1 << 8 * B))))

    def spec_enc(A, R):
        return f_and(eq(R.code, 0), eq(R.m, B), two(le_bytes(R.so, B), A[0]) if len(R.so) == B else False)

    def spec_dec(n):
        def spec(A, R):
            if n < B:
                return eq(R.code, 5)
            return f_and(eq(R.code, 0), two(le_bytes(A.bytes, B), R.o[0]), eq(R.o[1], B))
        return spec

    def spec_rt(A, R):
        return f_and(eq(R.code, 0), eq(R.o[0], A[0]), eq(R.o[1], B))

    def spec_cmp(A, R):
        return f_and(eq(R.code, 0), eq(R.o[0], R.o[1]), eq(R.o[2], 0), eq(R.o[3], A[0]))
    out = [
        Task("enc_%s_%d" % (t, p), "let mut o = out(); %s.encode_to(&mut o); let mut i = 0; while i < o.n { io.so[i] = o.b[i]; i += 1; } io.m = o.n; 0" % fx(t, p, 0),
             [("a", lo, hi)], spec=spec_enc),
        Task("enc2_%s_%d" % (t, p), "let v = %s.encode(); let mut i = 0; while i < v.len() { io.so[i] = v[i]; i += 1; } io.m = v.len(); 0" % fx(t, p, 0),
             [("a", lo, hi)], spec=spec_enc),
        Task("encas_%s_%d" % (t, p), "let x = %s; io.o[0] = *x.encode_as() as %s as i128; io.o[1] = match %s::decode_from(*x.encode_as()) { Ok(v) => *v.as_bits() as i128, Err(_) => return 5 }; 0" % (fx(t, p, 0), t, T),
             [("a", lo, hi)], spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], A[0]), eq(R.o[1], A[0]))),
        Task("rt_%s_%d" % (t, p), '''let mut o = out(); %s.encode_to(&mut o); let mut b = [0u8; 64]; let mut i = 0; while i < 40 { b[i] = o.b[i]; i += 1; }
            let mut inp = In { b, n: o.n, p: 0 }; match %s::decode(&mut inp) { Ok(v) => { io.o[0] = *v.as_bits() as i128; io.o[1] = inp.p as i128; 0 } Err(_) => 5 }''' % (fx(t, p, 0), T),
             [("a", lo, hi)], spec=spec_rt),
        Task("fromcompact_%s_%d" % (t, p), "let x: %s = Compact(%s).into(); io.o[0] = *x.as_bits() as i128; 0" % (T, fx(t, p, 0)), [("a", lo, hi)],
             spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], A[0]))),
        # the compact form: same bytes as the unsigned integer, and back
        Task("compact_%s_%d" % (t, p), '''let x = %s; let (mut a, mut b) = (out(), out()); Compact(x).encode_to(&mut a); Compact(io.i[0] as %s as %s).encode_to(&mut b);
            io.o[0] = a.n as i128; io.o[1] = b.n as i128; let mut d = 0; let mut i = 0; while i < a.n { if a.b[i] != b.b[i] { d = 1; } i += 1; } io.o[2] = d;
            let mut c = [0u8; 64]; let mut i = 0; while i < 40 { c[i] = a.b[i]; i += 1; } let mut inp = In { b: c, n: a.n, p: 0 };
            match Compact::<%s>::decode(&mut inp) { Ok(v) => { io.o[3] = *v.0.as_bits() as i128; 0 } Err(_) => 5 }''' % (fx(t, p, 0), t, U, T),
             [("a", lo, hi)], spec=spec_cmp),
    ]
    for n in range(B + 2):
        out.append(Task("dec%d_%s_%d" % (n, t, p), "let mut inp = In { b: io.s, n: io.n, p: 0 }; match %s::decode(&mut inp) { Ok(v) => { io.o[0] = *v.as_bits() as i128; io.o[1] = inp.p as i128; 0 } Err(_) => 5 }" % T,
                        nbytes=n, bytes_=[(0, 255)] * n, spec=spec_dec(n)))
    out.append(Task("slice_%s_%d" % (t, p), "let mut s = &io.s[..io.n]; match %s::decode(&mut s) { Ok(v) => { io.o[0] = *v.as_bits() as i128; io.o[1] = (io.n - s.len()) as i128; 0 } Err(_) => 5 }" % T,
                    nbytes=B, bytes_=[(0, 255)] * B, spec=spec_dec(B)))
    out.append(Task("slices_%s_%d" % (t, p), "let mut s = &io.s[..io.n]; match %s::decode(&mut s) { Ok(v) => { io.o[0] = *v.as_bits() as i128; io.o[1] = (io.n - s.len()) as i128; 0 } Err(_) => 5 }" % T,
                    nbytes=B - 1, bytes_=[(0, 255)] * (B - 1), spec=spec_dec(B - 1)))
    return out


def plan(tier):
    P = {"i16": (2,), "i32": (4,), "i64": (9,), "i128": (18,)} if tier == "quick" else {t: precisions(t, "quick") for t in LAYOUTS}
    pl = Plan("C18", "all numbers; all byte inputs of every length from 0 to the encoded size + 1; precisions %s" % P,
              assumptions=["the unsigned integer's own compact encoding (parity-scale-codec) is the reference for the compact form"],
              not_covered=["inputs longer than the encoded size by more than one byte"])
    pl.crate("std", [x for t in LAYOUTS for p in P[t] for x in tasks_for(t, p)], features=("i16", "i32", "i64", "i128", "parity"),
             deps='parity-scale-codec = { version = "3", default-features = false }', extra=EXTRA)
    return pl
