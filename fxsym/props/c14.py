from ..runner import Task
from ..check import Plan
from ..spec import *

LAYOUTS = ("i16", "i32", "i64", "i128")
PREC = {"i16": (0, 2, 4), "i32": (0, 4, 9), "i64": (0, 9, 18), "i128": (0, 18, 38)}
NDIG = {"i16": 5, "i32": 10, "i64": 19, "i128": 39}
DIGIT, WS, PLUS, MINUS, DOT, ANY = (48, 57), "ws", (43, 43), (45, 45), (46, 46), (0, 127)
LEAD2, CONT = (0xC2, 0xDF), (0x80, 0xBF)  # a two-byte character


def is_class(b, r, cls):
    """formula: byte b with static range r belongs to the class; a class is a range or whitespace"""
    if cls == WS:
        return f_or(*[is_class(b, r, c) for c in ((9, 13), (32, 32))])
    lo, hi = max(r[0], cls[0]), min(r[1], cls[1])
    if lo > hi:
        return False
    if (lo, hi) == r:
        return True
    return between(b, lo, hi)


def num(ds):
    v = 0
    for d in ds:
        v = padd(pscale(v, 10), psub(d, 48))
    return v


def grammar(B, ranges, value, reject):
    """value(sign, integral, fraction digits) when the text is  ws* [+-]? digit+ ('.' digit+)? ws*  ; reject otherwise"""
    n = len(B)
    out, conds = [], []
    ws = [is_class(b, r, WS) for b, r in zip(B, ranges)]
    for k in range(n - 1):
        if ranges[k] == LEAD2:  # U+0085 and U+00A0 are the two-byte whitespace characters
            ws[k] = f_and(eq(B[k], 0xC2), f_or(eq(B[k + 1], 0x85), eq(B[k + 1], 0xA0)))
            ws[k + 1] = True
    dg = [is_class(b, r, DIGIT) for b, r in zip(B, ranges)]
    dot = [is_class(b, r, DOT) for b, r in zip(B, ranges)]
    for a in range(n):
        if any(w is False for w in ws[:a]):
            break
        for e in range(n, a, -1):
            if any(w is False for w in ws[e:]):
                break
            for s in (None, PLUS, MINUS):
                i = a + (s is not None)
                if i >= e:
                    continue
                sc = True if s is None else is_class(B[a], ranges[a], s)
                if sc is False:
                    continue
                for k in [None] + list(range(i + 1, e - 1)):
                    I, F = (B[i:e], []) if k is None else (B[i:k], B[k + 1:e])
                    c = f_and(*ws[:a], *ws[e:], sc, *([dg[x] for x in range(i, e)] if k is None else [dg[x] for x in range(i, e) if x != k] + [dot[k]]))
                    if c is False:
                        continue
                    conds.append(c)
                    out.append(f_and(c, value(-1 if s == MINUS else 1, I, F)))
    return f_or(*out, f_and(*[f_not(c) for c in conds], reject))


def spec_for(t, p, exact, ranges):
    lo, hi = rng(t)

    def spec(A, R):
        bad = eq(R.code, CONVERT)

        def value(s, I, F):
            f = len(F)
            if f <= p:
                v = pscale(padd(pscale(num(I), 10 ** p), pscale(num(F), 10 ** (p - f))), s)
                return f_or(f_and(eq(R.code, 0), eq(R.o[0], v)), f_and(bad, f_or(lt(v, lo), gt(v, hi))))
            if exact:
                return bad
            n, d = pscale(padd(pscale(num(I), 10 ** f), num(F)), s), 10 ** (f - p)
            return f_or(f_and(eq(R.code, 0), rounded(R.o[0], n, d, 1), between(R.o[0], lo, hi)), f_and(bad, unrepresentable(n, d, 1, lo, hi)))
        return grammar(A.bytes, ranges, value, bad)
    return spec


def body(t, p, exact):
    e = "FixedPoint::<%s, U%d>::from_str_exact(s)" % (t, p) if exact else "s.parse::<FixedPoint<%s, U%d>>()" % (t, p)
    return "let s = unsafe { core::str::from_utf8_unchecked(&*(&io.s[..io.n] as *const [u8])) }; match %s { Ok(v) => { io.o[0] = *v.as_bits() as i128; 0 } Err(_) => 5 }" % e


def task(t, p, exact, shape, label, weight=None):
    ranges = [(0, 127) if c == WS else c for c in shape]
    pre = None
    if WS in shape:
        pre = lambda A: f_and(*[is_class(b, (0, 127), WS) for b, c in zip(A.bytes, shape) if c == WS])
    return Task("%s_%s_%d" % ("exact" if exact else "parse", t, p), body(t, p, exact), nbytes=len(shape), bytes_=ranges, pre=pre,
                spec=spec_for(t, p, exact, ranges), splits=[(label, None)], weight=weight or len(shape) + 30 * shape.count(ANY) ** 2)


def shape(s, i, f, lead=0, trail=0):
    return [WS] * lead + ([] if s == "" else [PLUS if s == "+" else MINUS]) + [DIGIT] * i + ([] if f is None else [DOT] + [DIGIT] * f) + [WS] * trail


def tasks_for(t, p, tier):
    out = []
    full = tier != "quick"
    d = NDIG[t]
    most = d - p
    ints = set(range(1, d + 2)) if full or p < 18 else {1, 2, max(most, 1), most + 1}
    fracs = set(range(1, min(p + 4, 45))) if full or p < 18 else {1, 2, max(p - 1, 1), max(p, 1), p + 1, p + 2}
    if not full and p > 18:
        fracs = {1, p, p + 1}
    for exact in (False, True):
        for s in ("", "+", "-"):
            for i in sorted(ints):
                for f in [None] + sorted(fracs):
                    if not full and s == "+" and (i > 1 or f not in (None, 1, p + 1)):
                        continue
                    out.append(task(t, p, exact, shape(s, i, f), "%s%d.%s" % (s, i, "" if f is None else f)))
        for l, r in ((1, 0), (0, 1), (2, 2)):
            out.append(task(t, p, exact, shape("-", 1, 1, l, r), "ws%d%d" % (l, r)))
        # a two-byte character before, inside and after a number
        for k in range(4):
            sh = shape("-", 2, None)
            out.append(task(t, p, exact, sh[:k] + [LEAD2, CONT] + sh[k:], "two-byte@%d" % k))
        for n in range(0, 6 if full else 5):
            out.append(task(t, p, exact, [ANY] * n, "any%d" % n))
        # one arbitrary byte anywhere in a longer number
        for s, i, f in (("-", 2, 2), ("", 3, None)) if not full else (("-", 2, 2), ("", 4, None), ("+", 1, 5), ("", 2, p + 2)):
            sh = shape(s, i, f)
            for k in range(len(sh)):
                out.append(task(t, p, exact, sh[:k] + [ANY] + sh[k + 1:], "%s%d.%s@%d" % (s, i, f, k)))
    return out


def plan(tier):
    pr = PREC if tier == "quick" else {t: precisions(t, tier)[::1 if t in ("i16", "i32") else 3] for t in LAYOUTS}
    pl = Plan("C14", "every ASCII text of 0 to %d bytes; well-formed numbers with sign, integer and fraction digit counts around the limits of the layout "
              "(every digit symbolic); the same with one arbitrary ASCII byte, or any two-byte character, at each position; precisions %s" % (5 if tier != "quick" else 4, {t: list(v) for t, v in pr.items()}),
              assumptions=["the Unicode White_Space table and the aligned memchr of core are modelled, not encoded"], not_covered=["three- and four-byte characters", "numbers with more digits than stated"])
    pl.crate("std", [x for t in LAYOUTS for p in pr[t] for x in tasks_for(t, p, tier)])
    return pl
