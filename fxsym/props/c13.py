from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")

EXTRA = '''
pub struct Sink<'a> { pub io: &'a mut Io }
impl<'a> core::fmt::Write for Sink<'a> {
    #[inline(never)]
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() { self.io.so[self.io.m] = b[i]; self.io.m += 1; i += 1; }
        Ok(())
    }
}
pub fn fm<'a>(s: &'a mut Sink<'_>) -> core::fmt::Formatter<'a> { core::fmt::Formatter::new(s, core::fmt::FormattingOptions::new()) }
'''
DOT, MINUS = 46, 45


def prec13(t, tier):
    return (0, 1, 9, 18, 19, 29, 38) if (t, tier) == ("i128", "quick") else all_precisions(t)


def canonical(so, a, p):
    """the text so (polynomials over bytes) is the canonical decimal of a / 10^p"""
    m = len(so)
    alts = []
    for s in (0, 1):
        for k in range(s + 1, m - 1):
            f = m - k - 1
            if f > max(p, 1):
                continue
            digs = so[s:k] + so[k + 1:]
            I = F = 0
            for d in so[s:k]:
                I = padd(pscale(I, 10), psub(d, 48))
            for d in so[k + 1:]:
                F = padd(pscale(F, 10), psub(d, 48))
            if p == 0:
                val = I
                extra = eq(F, 0)
            else:
                val = padd(pscale(I, 10 ** p), pscale(F, 10 ** (p - f)))
                extra = True
            sign = f_and(eq(so[0], MINUS), lt(a, 0), eq(val, pscale(a, -1))) if s else f_and(ge(a, 0), eq(val, a))
            alts.append(f_and(sign, eq(so[k], DOT), *[between(d, 48, 57) for d in digs],
                              (True if k - s == 1 else ne(so[s], 48)), (True if f == 1 else ne(so[m - 1], 48)), extra))
    return f_or(*alts)


def tasks_for(t, p):
    lo, hi = rng(t)

    def spec(A, R):
        return f_and(eq(R.code, 0), canonical(R.so, A[0], p))
    w = 2 * BITS[t] if t != "i128" else 1000
    mk_ = lambda tr: "let x = %s; let mut s = Sink { io }; let mut f = fm(&mut s); match core::fmt::%s::fmt(&x, &mut f) { Ok(_) => 0, Err(_) => 1 }" % (fx(t, p, 0), tr)
    N = 10 ** p
    splits = None
    if t in ("i64", "i128"):
        # magnitude of the number
        cuts = [0, 10 ** (p // 2), N] if p else [0]
        d = len(str(hi // N))
        cuts += [N * 10 ** k for k in range(3, d, 3)]
        cuts = sorted(set(c for c in cuts if c <= hi))
        splits = []
        for i, c in enumerate(cuts):
            h = cuts[i + 1] - 1 if i + 1 < len(cuts) else hi
            splits.append(("%d+" % c, lambda A, c=c, h=h: between(A[0], c, h)))
            l = h if i + 1 < len(cuts) else -lo
            c1 = max(c, 1)
            splits.append(("-%d+" % c, lambda A, c=c1, l=l: between(A[0], -l, -c)))
    return [Task("disp_%s_%d" % (t, p), mk_("Display"), [("a", lo, hi)], spec=spec, splits=splits, weight=w),
            Task("dbg_%s_%d" % (t, p), mk_("Debug"), [("a", lo, hi)], spec=spec, splits=splits, weight=w)]


def plan(tier):
    pl = Plan("C13", "all numbers; precisions %s; all layouts enabled together, and i16+i32+i64 without i128" % {t: list(prec13(t, tier)) for t in LAYOUTS})
    rf = ("formatting_options",)
    pl.crate("all", [x for t in LAYOUTS for p in prec13(t, tier) for x in tasks_for(t, p)], extra=EXTRA, rust_features=rf)
    pl.crate("small", [x for t in LAYOUTS[:3] for p in prec13(t, tier) for x in tasks_for(t, p)[:1]], extra=EXTRA, rust_features=rf, features=("i16", "i32", "i64"))
    return pl
