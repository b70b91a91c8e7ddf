import re
from ..runner import Task
from ..check import Plan
from ..merge import Merger
from ..spec import *

REL = 1 << 48
FN = re.compile(r"TryFrom<f64>.*::try_from$|convert::TryFrom<f64>.*try_from$")


def f64_task(t, p, F, L, neg):
    """doubles (2k+1) * 2^-F with an odd part of L bits"""
    lo, hi = rng(t)
    N = 10 ** p
    e = L - 1 - F + 1023
    assert 1 <= e < 2047
    base = (neg << 63) + (e - 1 << 52)
    sg = -1 if neg else 1
    num, den = (N, 1 << F) if F >= 0 else (N << -F, 1)

    def spec(A, R):
        x = pscale(padd(pscale(A[0], 2), 1), num)  # |value| * N * den
        xr = pscale(x, REL)
        d = pscale(psub(pscale(R.o[0], sg * den), x), REL)
        slack = padd(x, den * REL)
        ok = f_and(eq(R.code, 0), le(d, slack), ge(d, pscale(slack, -1)), ge(pscale(R.o[0], sg), 0))
        top = (-lo if neg else hi)
        bad = f_and(eq(R.code, CONVERT), gt(padd(xr, slack), top * den * REL))
        return f_or(ok, bad)

    tk = Task("f64_%s_%d_F%d_L%d%s" % (t, p, F, L, "n" * neg), body(t, p), [("k", (1 << L - 2) if L > 1 else 0, (1 << L - 1) - 1), ("z", 53 - L, 53 - L), ("base", base, base)],
              spec=spec, setup=setup(0, L), weight=cost(F, L))
    tk.opts = dict(feas_ms=10, traces=12 if F < 34 else 1)
    tk.fn = "f64_%s_%d" % (t, p)
    return tk


def cost(F, L):
    return max(1, F - (33 if L > 40 else 20))


def setup(j, L):
    def f(eng, st, A):
        eng.loop_hook = Merger(FN, padd(pscale(A[j], 2), 1), 1 if L == 1 else (1 << L - 1) + 1, (1 << L) - 1)
    return f


def decimal_task(t, p, q, F, L):
    """doubles as above that are the closest ones to a decimal d / 10^q with at most 15 digits: converted exactly"""
    lo, hi = rng(t)
    e = L - 1 - F + 1023
    base = e - 1 << 52
    z = 53 - L
    top = min(10 ** 15 - 1, hi // 10 ** (p - q))
    if F + z < 0 or top < 1:
        return None

    def pre(A):
        m = padd(pscale(A[0], 2), 1)
        d = psub(pscale(m, 10 ** q << z), pscale(A[3], 1 << F + z))
        return f_and(le(pscale(d, 2), 10 ** q), ge(pscale(d, 2), -10 ** q))

    def spec(A, R):
        return f_and(eq(R.code, 0), eq(R.o[0], pscale(A[3], 10 ** (p - q))))
    # the decimals within reach
    dl, dh = ((1 << L - 1) * 10 ** q >> F) if F >= 0 else (1 << L - 1 - F) * 10 ** q, (((1 << L) * 10 ** q >> F) + 1) if F >= 0 else (1 << L - F) * 10 ** q
    dl, dh = max(dl, 1), min(dh, top)
    if dl > dh:
        return None
    tk = Task("dec_%s_%d_q%d_F%d_L%d" % (t, p, q, F, L), body(t, p), [("k", (1 << L - 2) if L > 1 else 0, (1 << L - 1) - 1), ("z", z, z), ("base", base, base), ("d", dl, dh)],
              pre=pre, spec=spec, setup=setup(0, L), weight=cost(F, L))
    tk.opts = dict(feas_ms=10, traces=2)
    tk.fn = "f64_%s_%d" % (t, p)
    return tk


def special_tasks(t, p):
    """not a number, infinities and zeros"""
    out = []
    for neg in (0, 1):
        for e, m in ((2047, (0, (1 << 52) - 1)), (0, (0, 0))):
            k = (neg << 63) + (e << 52)
            b = ("match %s::try_from(f64::from_bits((io.i[1] as u64) + (io.i[0] as u64))) { Ok(v) => { io.o[0] = *v.as_bits() as i128; 0 } Err(_) => 5 }"
                 % ("FixedPoint::<%s, U%d>" % (t, p)))
            tk = Task("special_%s_%d_%d%s" % (t, p, e, "n" * neg), b, [("m",) + m, ("b", k, k)],
                      spec=(lambda A, R: eq(R.code, CONVERT)) if e else (lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], 0))))
            tk.fn = "special_%s_%d" % (t, p)
            out.append(tk)
    return out


def edge_tasks(t):
    """the magnitude of MIN at precision zero: MIN itself with the minus sign, beyond the type without it; and its neighbours"""
    out = []
    b = BITS[t]
    for neg in (0, 1):
        out += [f64_task(t, 0, F, L, neg) for F, L in ((-b, 1), (2 - b, 1), (1 - b, 2), (2 - b, 2), (54 - b, 53), (53 - b, 53)) if F < 40 and (b < 128 or L - F < 128)]
        tk = f64_task(t, 0, 1 - b, 1, neg)
        tk.name = "edge_%s%s" % (t, "n" * neg)
        tk.spec = (lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], rng(t)[0]))) if neg else (lambda A, R: eq(R.code, CONVERT))
        out.append(tk)
    return out


def body(t, p):
    return ("let b = (io.i[2] as u64).wrapping_add(((2 * io.i[0] + 1) as u64) << io.i[1]); "
            "match %s::try_from(f64::from_bits(b)) { Ok(v) => { io.o[0] = *v.as_bits() as i128; 0 } Err(_) => 5 }" % ("FixedPoint::<%s, U%d>" % (t, p)))


NOTE = "bounded: doubles odd * 2^-F with F and the length of odd in the stated ranges (subnormal and other tiny doubles, F above 62, are outside); in the scaling loops paths are merged under a solver-proved relation to the input (relative loss below 2^-112)"


def plan(tier):
    pl = Plan("C15", "")
    quick = tier == "quick"
    tasks = []
    full = [("i64", 9), ("i128", 18)]
    some = [("i16", 2), ("i32", 4), ("i64", 0), ("i64", 18), ("i128", 0), ("i128", 38)]
    top = 56 if quick else 62
    for t, p in full + some:
        tasks += special_tasks(t, p)
        for neg in (0, 1):
            step = (3 if quick else 1) if (t, p) in full else (7 if quick else 2)
            Fs = set(range(-80, 34, step)) | set(range(34, top + 1, (5 if quick else 1) if (t, p) in full else (11 if quick else 4))) | {-128, -127, -76, -75, -74, 0, 1, 52}
            Fs -= {F for F in Fs if F < -100}
            for F in sorted(Fs):
                tasks.append(f64_task(t, p, F, 53, neg))
            for L in ((1, 2, 20, 52) if quick else (1, 2, 3, 5, 10, 20, 31, 32, 33, 40, 48, 51, 52)):
                for F in range(-80, 30, 11 if quick else 3):
                    tasks.append(f64_task(t, p, F, L, neg))
    for t, p in (("i64", 9), ("i128", 9), ("i32", 4), ("i64", 2))[:2 if quick else 4]:
        for q in (p,):
            for L in (53, 50) if quick else (53, 52, 50):
                for F in range(3 if quick else 0, top, 9 if quick else 1):
                    x = decimal_task(t, p, q, F, L)
                    if x:
                        tasks.append(x)
    for t in ("i16", "i32", "i64", "i128"):
        tasks += edge_tasks(t)
    tasks = list({(x.name, x.fn): x for x in tasks}.values())
    pl.crate("std", tasks)
    pl.bounds = dict(doubles="odd * 2^-F, odd any number of 53 bits with F in -80..%d (every %s for i64 P=9 and i128 P=18), of 1, 2, 20, 52 (thorough: 13 lengths) bits with F in -80..29; both signs; zeros, infinities, NaN" % (top, "third" if quick else ""),
                     short_decimals="closest doubles to numbers of the type below 10^15 steps, F up to %d" % top,
                     accuracy="one step plus 2^-48 relative", layouts_precisions=str(full + some))
    return pl
