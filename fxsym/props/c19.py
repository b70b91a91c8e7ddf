from ..runner import Task
from ..check import Plan
from ..spec import *
from .c14 import ANY, DIGIT, shape, is_class

LAYOUTS = ("i16", "i32", "i64", "i128")
PREC = {"i16": (0, 2, 4), "i32": (0, 4, 9), "i64": (0, 9, 18), "i128": (0, 18, 38)}
NDIG = {"i16": 5, "i32": 10, "i64": 19, "i128": 39}


def body(t, p):
    return ("let s = unsafe { core::str::from_utf8_unchecked(&*(&io.s[..io.n] as *const [u8])) }; "
            "match FixedPoint::<%s, U%d>::from_str_exact(s) { Err(_) => 5, Ok(v) => { io.o[0] = *v.as_bits() as i128; "
            "let k = fixnum::_priv::parse_fixed(s, fixnum::_priv::pow10(%d)); let w = FixedPoint::<%s, U%d>::from_bits(k as _); io.o[1] = *w.as_bits() as i128; 0 } }" % (t, p, p, t, p))


def body_long(t, p):
    return ("let s = unsafe { core::str::from_utf8_unchecked(&*(&io.s[..io.n] as *const [u8])) }; "
            "io.o[0] = fixnum::_priv::parse_fixed(s, fixnum::_priv::pow10(%d)) as i128; 0" % p)


def spec_eq(A, R):
    return f_or(eq(R.code, 5), f_and(eq(R.code, 0), eq(R.o[0], R.o[1])))


def spec_never(A, R):
    return False


def task(t, p, sh, label):
    # a literal token never begins or ends with whitespace
    pre = None
    if sh and ANY in (sh[0], sh[-1]):
        pre = lambda A: f_and(*[f_not(is_class(A.bytes[k], (0, 127), "ws")) for k in (0, len(sh) - 1) if sh[k] == ANY])
    return Task("lit_%s_%d" % (t, p), body(t, p), nbytes=len(sh), bytes_=list(sh), pre=pre, spec=spec_eq, splits=[(label, None)], weight=len(sh) + 30 * sh.count(ANY) ** 2)


def tasks_for(t, p, tier):
    full = tier != "quick"
    d = NDIG[t]
    most = d - p
    out = []
    ints = set(range(1, d + 2)) if full or p < 18 else {1, 2, max(most, 1), most + 1}
    ints |= {d + 3, 25, 44} if p < 18 else {d + 3}
    fracs = set(range(1, p + 1)) if full or p < 18 else {1, p - 1, p}
    for s in ("", "+", "-"):
        for i in sorted(ints):
            for f in [None] + sorted(fracs):
                if i + (f or 0) + 2 <= 64 and not (s == "+" and not full and i > 2):
                    sh = shape(s, i, f)
                    if i > d + 1:
                        # leading zeros
                        k = 1 if s else 0
                        sh = sh[:k] + [(48, 48)] * (i - 3) + sh[k + i - 3:]
                    out.append(task(t, p, sh, "%s%d.%s" % (s, i, "" if f is None else f)))
        for i in (1, 3):
            for f in (p + 1, p + 2, p + 7):
                sh = shape(s, i, f)
                out.append(Task("long_%s_%d" % (t, p), body_long(t, p), nbytes=len(sh), bytes_=sh, spec=spec_never, panic_ok=lambda A: True,
                                splits=[("%s%d.%d" % (s, i, f), None)], trace_ok=False))
    for n in range(1, 6 if full else 5):
        out.append(task(t, p, [ANY] * n, "any%d" % n))
    return out


def macro_tasks(t, p):
    """literals evaluated by the compiler through the public macros, against the exact parser at run time"""
    lo, hi = rng(t)

    def text(v):
        q, r = divmod(abs(v), 10 ** p)
        return ("-" if v < 0 else "") + str(q) + ("." + str(r).zfill(p) if p else "")
    lits = {text(v) for v in (0, 1, -1, hi, lo, hi - 1, lo + 1, hi // 7, lo // 13)} | {"0", "1", "-1", "2.0" if p else "2", "0.5" if p else "5", "-0.5" if p else "-5"}
    out = []
    for k, l in enumerate(sorted(lits)):
        q = int(l.split(".")[0]) * 10 ** p
        if not lo <= q <= hi:
            continue
        b = ("const K: FixedPoint<%s, U%d> = fixnum::fixnum_const!(%s, %d); let m: FixedPoint<%s, U%d> = fixnum::fixnum!(%s, %d); "
             "match FixedPoint::<%s, U%d>::from_str_exact(\"%s\") { Err(_) => 5, Ok(v) => { io.o[0] = *v.as_bits() as i128; io.o[1] = *K.as_bits() as i128; io.o[2] = *m.as_bits() as i128; 0 } }"
             % (t, p, l, p, t, p, l, p, t, p, l))
        out.append(Task("macro_%s_%d_%d" % (t, p, k), b, spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], R.o[1]), eq(R.o[0], R.o[2])), domain=l))
    return out


def plan(tier):
    pl = Plan("C19", "literal texts: every ASCII text of 1 to %d bytes without outer whitespace that the exact parser accepts; numbers with sign, integer and fraction digit counts up to and "
              "around the limits of the layout, every digit symbolic, including leading zeros; too long fractions of P+1, P+2 and P+7 digits must not evaluate; with Int = i128 and with Int = i64; precisions %s"
              % (5 if tier != "quick" else 4, {t: list(v) for t, v in PREC.items()}),
              assumptions=["constant evaluation executes the same function as the one encoded; a panic, an arithmetic overflow or an endless loop there is a compile error"],
              not_covered=["the tokenisation of the literal by the compiler (the text is what stringify! yields)"])
    pr = PREC if tier == "quick" else {t: precisions(t, tier)[::1 if t in ("i16", "i32") else 3] for t in LAYOUTS}
    pl.crate("all", [x for t in LAYOUTS for p in pr[t] for x in tasks_for(t, p, tier)])
    pl.crate("small", [x for t in LAYOUTS[:3] for p in pr[t] for x in tasks_for(t, p, tier)], features=("i16", "i32", "i64"))
    pl.crate("macros", [x for t in LAYOUTS for p in pr[t] for x in macro_tasks(t, p)], optional=True)
    return pl
