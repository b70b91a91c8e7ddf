"""Summaries of wide-integer kernel functions.

A summary replaces a call only after the function itself, taken from the same IR, was shown to meet it (a lemma, decided by
the same executor and solver earlier in the same run).  Where the symbol is missing, its shape differs or its lemma is not
proved, calls are executed inline as usual.
"""
import re

from .poly import *
from .llir import UNDEF
from . import sym, fp
from .runner import Task, Res, Ctx

B = 1 << 64
M128 = 1 << 128
M256 = 1 << 256

WORD = re.compile(r"U256::div_mod_word$")
DIVMOD = re.compile(r"U256::div_mod$")
MUL = re.compile(r"U256::overflowing_mul$")


def find(mod, pat):
    c = [n for n, f in mod.fns.items() if pat.search(f.demangled)]
    return c[0] if len(c) == 1 else None


def shape(mod, name, tys):
    f = mod.fn(name)
    return [str(t) for _, t in f.params] == tys


def words(eng, st, v, n=4):
    return [psub(eng.floordiv(st, v, 1 << 64 * k), pscale(eng.floordiv(st, v, 1 << 64 * (k + 1)), B)) for k in range(n)]


# ------------------------------------------------------------------ K1: two words by one
def k1_key(y):
    return ("word", y)


def k1_contract(eng, st, fr, dest, rt, a, ts, fn):
    hi, lo, y = [eng.U(st, x, 64) for x in a]
    c = eng.const_of(st, y)
    P = Ctx.proven
    if c is not None:
        y = c
        ok = k1_key(c) in P or ("word", "any") in P or (c >= B // 2 and ("word", "norm") in P)
    else:
        ok = ("word", "any") in P or (("word", "norm") in P and eng.must(st, ge(y, B // 2)))
    if not ok or not eng.must(st, lt(hi, y)):
        return INLINE
    n = padd(pscale(hi, B), lo)
    if eng.hyp == "knuth" and type(n) is Poly:
        # both results as variables, tied by the equation
        q, r = [atom_poly(eng.fresh(st, ("word", k, n, y), "%s%d" % (k, len(eng.atoms.info)), 0, B - 1,
                                    ("fn", lambda ev, i=i: divmod(peval(n, ev), peval(y, ev) or 1)[i]))) for i, k in enumerate("qr")]
        eng.assume(st, lt(r, y))
        eng.assume(st, eq(padd(pmul(q, y), r), n))
        eng.used_summaries.add("div_mod_word")
        return [q, r]
    q = eng.floordiv(st, n, y)
    r = psub(n, eng.product(st, q, y))
    eng.learn(st, between(r, 0, B - 1))
    eng.learn(st, between(q, 0, B - 1))
    eng.used_summaries.add("div_mod_word")
    return [q, r]


def k1_lemma(kind, lab="", level=0):
    if kind == "any" or kind == "norm":
        yl, yh = (1 if kind == "any" else B // 2), B - 1
    else:
        yl = yh = kind

    def enter(eng, st, A):
        name = find(eng.mod, WORD)
        if name is None or not shape(eng.mod, name, ["i64", "i64", "i64"]):
            return None
        return eng.mod.fn(name), [A[0], A[1], A[2]]

    def read(eng, st, info):
        return [eng.U(st, info[0], 64), eng.U(st, info[1], 64)]

    def spec(A, R):
        hi, lo, y = A
        q, r = R.o
        return f_and(eq(padd(pmul(q, y), r), padd(pscale(hi, B), lo)), ge(r, 0), lt(r, y))
    splits = None
    if kind == "any":
        splits = [("shift%d" % s, lambda A, s=s: between(A[2], 1 << 63 - s, (1 << 64 - s) - 1)) for s in range(64)]
    elif kind == "norm":
        splits = [("", None)]
    t = Task("lemma_word_%s" % kind, "", [("hi", 0, B - 1), ("lo", 0, B - 1), ("y", yl, yh)], spec=spec, splits=splits,
             pre=lambda A: lt(A[0], A[2]))
    t.enter, t.read, t.key, t.level = enter, read, ("word", kind), level
    t.opts = dict(feas_ms=1000)
    return t


# ------------------------------------------------------------------ K2: quotient and remainder
def read256(eng, st, addr):
    o, off = eng.getobj(st, addr, 32)
    return eng.U(st, eng.load_bytes(st, o, off, 32), 256)


def write256(eng, st, addr, vals):
    o, off = eng.getobj(st, addr, 32 * len(vals), write=True)
    for k, v in enumerate(vals):
        eng.store_bytes(st, o, off + 32 * k, 32, v)


def k2_contract(eng, st, fr, dest, rt, a, ts, fn):
    if len(a) != 3:
        return INLINE
    d = read256(eng, st, a[2])
    c = eng.const_of(st, d)
    P = Ctx.proven
    if c is not None:
        d = c
        ok = 0 < c and (("divmod", c) in P or (c < M128 and ("divmod", "any") in P))
    else:
        ok = ("divmod", "any") in P and eng.must(st, between(d, 1, M128 - 1))
    if not ok:
        return INLINE
    n = read256(eng, st, a[1])
    if ("divmod", c) not in P and not eng.must(st, lt(n, 1 << 255)):
        return INLINE
    q = eng.floordiv(st, n, d)
    r = psub(n, eng.product(st, q, d))
    eng.learn(st, between(r, 0, M256 - 1))
    eng.learn(st, between(q, 0, M256 - 1))
    write256(eng, st, a[0], [q, r])
    eng.used_summaries.add("div_mod")
    return None


KNUTH = re.compile(r"U256::div_mod_knuth$")
NEXT = re.compile(r"::next$")


def atoms_of(f):
    ps, out = [], set()
    f_polys(f, ps)
    for p in ps:
        if type(p) is Poly:
            for m in p.t:
                out.update(m)
    return out


class Base:
    """what a path knows at the head of the digit loop"""

    def __init__(self, st, fr, j):
        self.j = j
        self.pc, self.ab, self.facts, self.defs = list(st.pc), dict(st.ab), dict(st.facts), dict(st.defs)
        self.monos, self.prods, self.nobj, self.regs = set(st.monos), st.prods, st.nobj, set(fr.regs)
        self.mem = {k: dict(o.cells) for k, o in st.mem.items()}


def number(ws):
    r = 0
    for k, w in enumerate(ws):
        r = padd(r, pscale(w, 1 << 64 * k))
    return r


def word_fn(f, k):
    return ("fn", lambda ev: f(ev) >> 64 * k & B - 1)


def new_word(eng, st, key, f, k, lo=0, hi=B - 1):
    at = eng.fresh(st, key, "w%d" % len(eng.atoms.info), 0, B - 1, word_fn(f, k))
    eng.add_pc(st, between(atom_poly(at), lo, hi))
    return at


def rebase(eng, st, fr, dest, rt, a, ts, fn):
    """Long division, between two quotient digits.  Where the path shows the digit's equation (old window = digit * divisor + new
    window, new window < divisor), digit and remainder words become fresh variables known only by that; the equation is set aside for the
    final goal, everything else learnt or computed since the previous digit is forgotten, and paths which agree afterwards are merged.
    All of this only weakens what later steps may assume; a later use of something forgotten ends the path as unsupported."""
    if eng.hyp != "knuth" or not KNUTH.search(fr.fn.demangled):
        return INLINE

    def words(ad, n=5):
        o, off = eng.getobj(st, ad, 8 * n)
        try:
            return [eng.U(st, eng.load_bytes(st, o, off + 8 * k, 8), 64) for k in range(n)]
        except (sym.End, sym.Unsupported):
            return None
    ps = [nm for nm, _ in fr.fn.params]
    n, m = eng.const_of(st, fr.regs[ps[3]]), eng.const_of(st, fr.regs[ps[4]])
    if "base" not in st.notes:
        # the buffers filled before the first digit; their words become variables
        st.notes["base"], st.notes["hidden"], st.notes["kept"] = None, (), ()
        if n is None or m is None:
            return INLINE
        ads = [fr.regs.get(ins[1]) for ins in fr.fn.blocks[fr.fn.entry] if ins[0] == "alloca" and ins[2].size == 40]
        bufs = [ad for ad in ads if type(ad) is int and words(ad) is not None]
        if len(bufs) != 1:
            return INLINE
        st.notes["u"] = bufs[0]
        ws = words(bufs[0])
        o, off = eng.getobj(st, bufs[0], 40, write=True)
        for k, w in enumerate(ws):
            if type(w) is Poly and not eng.must(st, eq(w, 0)):
                at = new_word(eng, st, ("word", w), lambda ev, w=w: peval(w, ev), 0, *eng.iv(st, w))
                st.notes["hidden"] += ((at, w),)
                w = atom_poly(at)
            eng.store_bytes(st, o, off + 8 * k, 8, 0 if type(w) is not Poly else w)
        st.notes["base"] = Base(st, fr, m)
        return INLINE
    base = st.notes["base"]
    if base is None:
        return INLINE
    st.notes["base"] = None
    j, V = base.j, read256(eng, st, fr.regs[ps[2]])
    uo, uoff = eng.getobj(st, st.notes["u"], 40)
    old = [base.mem[st.notes["u"] >> sym.OBJ_SHIFT][uoff + 8 * k][1] for k in range(5)]
    new = words(st.notes["u"])
    if new is None or not 0 <= j <= 4 - n or not eng.must(st, f_and(*[eq(w, 0) for w in new[j + n:]])):
        return INLINE
    R0, R1 = number(old[j:]), number(new[j:])  # the upper words are zero: with them the sum telescopes
    if type(R0) is not Poly:
        st.notes["base"] = Base(st, fr, j - 1)
        return INLINE
    if not eng.must(st, lt(R1, V)):
        return INLINE
    # the digit: a word that changed and satisfies the equation
    cand = []
    for oid, cells in base.mem.items():
        if oid == st.notes["u"] >> sym.OBJ_SHIFT or oid not in st.mem:
            continue
        for off, c in st.mem[oid].cells.items():
            if c[0] == 8 and (type(c[1]) is Poly or type(c[1]) is int) and cells.get(off) != c:
                cand.append((oid, off, eq(R0, padd(pmul(eng.U(st, c[1], 64), V), R1))))
    cell = next((c for c in cand if c[2] is True), None) or next((c for c in cand if eng.must(st, c[2])), None)
    if cell is None:
        return INLINE
    # back to the head's knowledge
    regs = base.regs
    st.pc, st.ab, st.facts, st.defs = list(base.pc), dict(base.ab), dict(base.facts), dict(base.defs)
    st.monos, st.prods, st.nobj = set(base.monos), base.prods, base.nobj
    for oid in [oid for oid in st.mem if oid not in base.mem]:
        del st.mem[oid]
    for oid, cells in base.mem.items():
        if not cells and oid in st.mem and st.mem[oid].cells:
            o, _ = eng.getobj(st, oid << sym.OBJ_SHIFT, 0, write=True)
            o.cells.clear()
            o.name = sym.FORGOTTEN
    fr.regs = {k: v for k, v in fr.regs.items() if k in regs}

    def ediv(ev):
        v = peval(V, ev)
        return divmod(peval(R0, ev), v) if v else (0, 0)
    at = new_word(eng, st, ("digit", R0, j), lambda ev: ediv(ev)[0], 0)
    o, _ = eng.getobj(st, cell[0] << sym.OBJ_SHIFT, 8, write=True)
    eng.store_bytes(st, o, cell[1], 8, atom_poly(at))
    rs = [new_word(eng, st, ("rest", R0, j, k), lambda ev: ediv(ev)[1], k) for k in range(n)]
    o, off = eng.getobj(st, st.notes["u"], 40, write=True)
    for k in range(j, 5):
        eng.store_bytes(st, o, off + 8 * k, 8, atom_poly(rs[k - j]) if k < j + n else 0)
    R1 = number([atom_poly(x) for x in rs])
    eng.assume(st, lt(R1, V))
    st.notes["hidden"] += ((rs[0], psub(psub(R0, pmul(atom_poly(at), V)), psub(R1, atom_poly(rs[0])))),)
    st.notes["base"] = Base(st, fr, j - 1)
    eng.rebased += 1
    sig = (j, fr.regs, fr.blk, fr.ip, st.pc, st.notes["base"].mem, st.notes["hidden"], len(st.frames), [(f.fn.name, f.regs, f.blk, f.ip) for f in st.frames if f is not fr], st.ab, st.facts)
    if sig in eng.merged:
        raise sym.Infeasible()
    sig = (j, dict(fr.regs), fr.blk, fr.ip, list(st.pc), st.notes["base"].mem, st.notes["hidden"], len(st.frames), [(f.fn.name, dict(f.regs), f.blk, f.ip) for f in st.frames if f is not fr], dict(st.ab), dict(st.facts))
    eng.merged.append(sig)
    return INLINE


def k2_lemma(kind, level=1):
    """kind: a constant divisor, or 'any' (divisor 1 .. 2^128-1); the dividend is any 256-bit (for 'any': 255-bit) number"""
    const = kind != "any"

    def enter(eng, st, A):
        name = find(eng.mod, DIVMOD)
        if name is None or not shape(eng.mod, name, ["ptr", "ptr", "ptr"]):
            return None
        u, v, res = eng.alloc(st, 32, "u"), eng.alloc(st, 32, "v"), eng.alloc(st, 64, "res")
        for k in range(4):
            o, _ = eng.getobj(st, u, 32, write=True)
            eng.store_bytes(st, o, 8 * k, 8, A[k])
            o, _ = eng.getobj(st, v, 32, write=True)
            eng.store_bytes(st, o, 8 * k, 8, (kind >> 64 * k) % B if const else A[4 + k] if k < 2 else 0)
        st.notes["res"] = res
        eng.hyp = "knuth"
        return eng.mod.fn(name), [res, u, v]

    def read(eng, st, info):
        o, off = eng.getobj(st, st.notes["res"], 64)
        return [eng.U(st, eng.load_bytes(st, o, 8 * k, 8), 64) for k in range(8)]

    def num(ws):
        r = 0
        for k, w in enumerate(ws):
            r = padd(r, pscale(w, 1 << 64 * k))
        return r

    def spec(A, R):
        u = num(A[:4])
        v = kind if const else num(A[4:6])
        q, r = num(R.o[:4]), num(R.o[4:])
        return f_and(eq(padd(pmul(q, v), r), u), ge(r, 0), lt(r, v))
    ints = [("u%d" % k, 0, B - 1 if k < 3 or const else B // 2 - 1) for k in range(4)]
    splits = None
    # number of significant words of the dividend
    nw = [("u%d" % (k + 1), lambda A, k=k: f_and(*[eq(A[j], 0) for j in range(k + 1, 4)] + ([ge(A[k], 1)] if k else []))) for k in range(4)]
    if const:
        splits = nw
    else:
        ints += [("v0", 0, B - 1), ("v1", 0, B - 1)]
        splits = [(l + "v1", lambda A, f=f: f_and(f(A), eq(A[5], 0), ge(A[4], 1))) for l, f in nw]
        for s in range(64):
            splits += [("%sv2s%d" % (l, s), lambda A, f=f, s=s: f_and(f(A), between(A[5], 1 << 63 - s, (1 << 64 - s) - 1))) for l, f in nw]
    t = Task("lemma_divmod_%s" % kind, "", ints, spec=spec, splits=splits)
    t.enter, t.read, t.key, t.level = enter, read, ("divmod", kind), level
    return t


# ------------------------------------------------------------------ K3: product
def k3_contract(eng, st, fr, dest, rt, a, ts, fn):
    P = Ctx.proven
    if len(a) != 3 or not (("mul", "128") in P or ("mul", "wide") in P):
        return INLINE
    x, y = read256(eng, st, a[1]), read256(eng, st, a[2])
    if not eng.must(st, lt(y, M128)):
        return INLINE
    p = eng.product(st, x, y)
    if not (("mul", "128") in P and eng.must(st, lt(x, M128)) or ("mul", "wide") in P and eng.must(st, lt(p, M256))):
        return INLINE
    eng.learn(st, between(p, 0, M256 - 1))
    write256(eng, st, a[0], [p])
    o, off = eng.getobj(st, a[0], 33, write=True)
    eng.store_bytes(st, o, off + 32, 1, 0)
    eng.used_summaries.add("overflowing_mul")
    return None


def k3_lemma(level=0, wide=False):
    """wide: the first factor is any number, the product still fits"""
    nx = 4 if wide else 2

    def enter(eng, st, A):
        name = find(eng.mod, MUL)
        if name is None or not shape(eng.mod, name, ["ptr", "ptr", "ptr"]):
            return None
        u, v, res = eng.alloc(st, 32, "u"), eng.alloc(st, 32, "v"), eng.alloc(st, 40, "res")
        for ad, ws in ((u, A[:nx]), (v, A[nx:])):
            o, _ = eng.getobj(st, ad, 32, write=True)
            for k in range(4):
                eng.store_bytes(st, o, 8 * k, 8, ws[k] if k < len(ws) else 0)
        st.notes["res"] = res
        return eng.mod.fn(name), [res, u, v]

    def read(eng, st, info):
        o, off = eng.getobj(st, st.notes["res"], 40)
        return [eng.U(st, eng.load_bytes(st, o, 8 * k, 8), 64) for k in range(4)] + [eng.U(st, eng.load_bytes(st, o, 32, 1), 8)]

    def spec(A, R):
        return f_and(eq(number(R.o[:4]), pmul(number(A[:nx]), number(A[nx:]))), eq(R.o[4], 0))
    t = Task("lemma_mul" + "_wide" * wide, "", [("%s%d" % (c, k), 0, B - 1) for c, n in (("x", nx), ("y", 2)) for k in range(n)], spec=spec,
             pre=(lambda A: lt(pmul(number(A[:nx]), number(A[nx:])), M256)) if wide else None)
    t.enter, t.read, t.key, t.level = enter, read, ("mul", "wide" if wide else "128"), level
    return t


# ------------------------------------------------------------------ operations of the signed and unsigned 256-bit types
def signed256(eng, st, addr):
    o, off = eng.getobj(st, addr, 32)
    return eng.S(st, eng.load_bytes(st, o, off, 32), 256)


def cmp_fork(eng, st, x, y):
    """-1, 0, 1"""
    alts = []
    for v, f in ((-1, lt(x, y)), (0, eq(x, y)), (1, gt(x, y))):
        f = eng.simp(st, f)
        if f is True:
            return v
        if f is not False and eng.possible(st, f):
            alts.append((v, f))
    if not alts:
        raise sym.Infeasible()
    if len(alts) == 1:
        return alts[0][0]
    raise sym.Fork([f for _, f in alts])


M127 = 1 << 127
M255 = 1 << 255
I = r"fixnum::i256::I256"
U_ = r"fixnum::i256::u256::U256"


class Op:
    """one operation: ABI shape, operand domain, exact result"""

    def __init__(self, key, pat, n, fn, dom, signed=True, ret=None, level=0, narrow=None):
        self.key, self.pat, self.n, self.fn, self.dom, self.signed, self.ret, self.level = key, re.compile(pat), n, fn, dom, signed, ret, level
        self.narrow = narrow
        self.shape = (["ptr"] if ret is None else []) + ["ptr"] * n

    def get(self, eng, st, addr):
        return signed256(eng, st, addr) if self.signed else read256(eng, st, addr)

    def contract(self, eng, st, fr, dest, rt, a, ts, fn):
        if ("op", self.key) not in Ctx.proven or len(a) != len(self.shape):
            return INLINE
        xs = [self.get(eng, st, p) for p in a[len(a) - self.n:]]
        d = self.dom(xs)
        if d is not True and not eng.must(st, d):
            return INLINE
        eng.used_summaries.add(self.key)
        if self.ret == "cmp":
            return cmp_fork(eng, st, *xs)
        if self.ret == "eq":
            c = cmp_fork(eng, st, *xs)
            return c == 0
        v = self.fn(eng, st, xs)
        eng.learn(st, between(v, *((-M255, M255 - 1) if self.signed else (0, M256 - 1))))
        o, off = eng.getobj(st, a[0], 32, write=True)
        eng.store_bytes(st, o, off, 32, v)
        return None

    def lemma(self):
        top = (-(B // 2), B // 2 - 1) if self.signed else (0, B - 1)

        def enter(eng, st, A):
            name = find(eng.mod, self.pat)
            if name is None or not shape(eng.mod, name, self.shape):
                return None
            ads = []
            for j in range(self.n):
                ad = eng.alloc(st, 32, "x%d" % j)
                o, _ = eng.getobj(st, ad, 32, write=True)
                if self.narrow:
                    eng.store_bytes(st, o, 0, 32, A[j])
                for k in range(4 if not self.narrow else 0):
                    eng.store_bytes(st, o, 8 * k, 8, A[4 * j + k])
                ads.append(ad)
            if self.ret is None:
                st.notes["res"] = eng.alloc(st, 32, "res")
                ads = [st.notes["res"]] + ads
            return eng.mod.fn(name), ads

        def num(ws):
            r = 0
            for k, w in enumerate(ws):
                r = padd(r, pscale(w, 1 << 64 * k))
            return r

        def args(A):
            return list(A) if self.narrow else [num(A[4 * j:4 * j + 4]) for j in range(self.n)]

        def read(eng, st, info):
            if self.ret == "eq":
                return [eng.b2i(st, info) if info not in (True, False, 0, 1) else int(info)]
            if self.ret is not None:
                return [eng.S(st, info, 8)]
            o, _ = eng.getobj(st, st.notes["res"], 32)
            ws = [eng.U(st, eng.load_bytes(st, o, 8 * k, 8), 64) for k in range(3)]
            t = eng.load_bytes(st, o, 24, 8)
            return ws + [eng.S(st, t, 64) if self.signed else eng.U(st, t, 64)]

        def spec(A, R):
            xs = args(A)
            if self.ret == "cmp":
                o = R.o[0]
                x, y = xs
                return f_or(f_and(eq(o, -1), lt(x, y)), f_and(eq(o, 0), eq(x, y)), f_and(eq(o, 1), gt(x, y)))
            if self.ret == "eq":
                o = R.o[0]
                return f_or(f_and(eq(o, 1), eq(*xs)), f_and(eq(o, 0), ne(*xs)))
            return eq(num(R.o), self.fn(None, None, xs))
        ints = []
        for j in range(self.n):
            if self.narrow:
                ints.append(("xyz"[j],) + self.narrow)
            else:
                ints += [("%s%d" % ("xyz"[j], k),) + ((0, B - 1) if k < 3 else top) for k in range(4)]

        def pre(A):
            return self.dom(args(A))
        splits = None
        t = Task("lemma_" + self.key, "", ints, pre=pre, spec=spec, splits=splits)
        t.enter, t.read, t.key, t.level = enter, read, ("op", self.key), self.level
        return t


def mul_dom(xs):
    return f_and(*[between(x, -M127, M127) for x in xs])


def mulfn(eng, st, xs):
    return pmul(*xs) if eng is None else eng.product(st, *xs)


OPS = [
    Op("i256_add", r"^<%s as core::ops::arith::Add>::add$" % I, 2, lambda e, s, x: padd(*x), lambda x: between(padd(*x), -M255, M255 - 1)),
    Op("i256_sub", r"^<%s as core::ops::arith::Sub>::sub$" % I, 2, lambda e, s, x: psub(*x), lambda x: between(psub(*x), -M255, M255 - 1)),
    Op("i256_neg", r"^<%s as core::ops::arith::Neg>::neg$" % I, 1, lambda e, s, x: pscale(x[0], -1), lambda x: gt(x[0], -M255)),
    Op("u256_cmp", r"^<%s as core::cmp::Ord>::cmp$" % U_, 2, None, lambda x: True, signed=False, ret="cmp"),
    Op("i256_cmp", r"^<%s as core::cmp::Ord>::cmp$" % I, 2, None, lambda x: True, ret="cmp", level=1),
    Op("i256_eq", r"^<%s as core::cmp::PartialEq>::eq$" % I, 2, None, lambda x: True, ret="eq"),
    Op("i256_mul", r"^<%s as core::ops::arith::Mul>::mul$" % I, 2, mulfn, mul_dom, level=1, narrow=(-M127, M127)),
]


def op_lemmas(*keys):
    return [o.lemma() for o in OPS if o.key in keys]


# ------------------------------------------------------------------ steps of the long division
MULW = re.compile(r"U256::full_mul_u64$")
SLICE = {"sub": re.compile(r"U256::sub_slice$"), "add": re.compile(r"U256::add_slice$")}


def load_words(eng, st, addr, n):
    o, off = eng.getobj(st, addr, 8 * n)
    return [eng.U(st, eng.load_bytes(st, o, off + 8 * k, 8), 64) for k in range(n)]


def store_words(eng, st, addr, ws):
    o, off = eng.getobj(st, addr, 8 * len(ws), write=True)
    for k, w in enumerate(ws):
        eng.store_bytes(st, o, off + 8 * k, 8, w)


def mulw_contract(eng, st, fr, dest, rt, a, ts, fn):
    if ("mulw", "") not in Ctx.proven or len(a) != 3:
        return INLINE
    v = number(load_words(eng, st, a[1], 4))
    p = eng.product(st, v, eng.U(st, a[2], 64))
    eng.learn(st, between(p, 0, (M256 - 1) * (B - 1)))
    store_words(eng, st, a[0], words(eng, st, p, 5))
    eng.used_summaries.add("full_mul_u64")
    return None


def mulw_lemma():
    def enter(eng, st, A):
        name = find(eng.mod, MULW)
        if name is None or not shape(eng.mod, name, ["ptr", "ptr", "i64"]):
            return None
        res, u = eng.alloc(st, 40, "res"), eng.alloc(st, 32, "u")
        store_words(eng, st, u, A[:4])
        st.notes["res"] = res
        return eng.mod.fn(name), [res, u, A[4]]

    def read(eng, st, info):
        return load_words(eng, st, st.notes["res"], 5)
    t = Task("lemma_mulw", "", [("u%d" % k, 0, B - 1) for k in range(4)] + [("by", 0, B - 1)],
             spec=lambda A, R: eq(number(R.o), pmul(number(A[:4]), A[4])))
    t.enter, t.read, t.key, t.level = enter, read, ("mulw", ""), 0
    return t


def slice_contract(op):
    def contract(eng, st, fr, dest, rt, a, ts, fn):
        if len(a) != 4:
            return INLINE
        la, lb = eng.const_of(st, a[1]), eng.const_of(st, a[3])
        if (op, (la, lb)) not in Ctx.proven:
            return INLINE
        x, y = number(load_words(eng, st, a[0], lb)), number(load_words(eng, st, a[2], lb))
        top = 1 << 64 * lb
        d = psub(x, y) if op == "sub" else padd(x, y)
        out = lt(d, 0) if op == "sub" else ge(d, top)
        c = 1 if eng.must(st, out) else 0 if eng.must(st, f_not(out)) else None
        if c is None:
            raise sym.Fork([out, f_not(out)])
        d = padd(d, (top if op == "sub" else -top) * c)
        eng.learn(st, between(d, 0, top - 1))
        store_words(eng, st, a[0], words(eng, st, d, lb))
        eng.used_summaries.add(op + "_slice")
        return c == 1
    return contract


def slice_lemma(op, la, lb):
    def enter(eng, st, A):
        name = find(eng.mod, SLICE[op])
        if name is None or not shape(eng.mod, name, ["ptr", "i64", "ptr", "i64"]):
            return None
        x, y = eng.alloc(st, 8 * la, "x"), eng.alloc(st, 8 * lb, "y")
        store_words(eng, st, x, A[:la])
        store_words(eng, st, y, A[la:])
        st.notes["res"] = x
        return eng.mod.fn(name), [x, la, y, lb]

    def read(eng, st, info):
        return load_words(eng, st, st.notes["res"], la) + [eng.b2i(st, info) if info not in (True, False, 0, 1) else int(info)]

    def spec(A, R):
        *ws, c = R.o
        x, y, r = number(A[:lb]), number(A[la:]), number(ws[:lb])
        k = pscale(c, 1 << 64 * lb)
        return f_and(eq(psub(r, k), psub(x, y)) if op == "sub" else eq(padd(r, k), padd(x, y)), *[eq(w, v) for w, v in zip(ws[lb:], A[lb:la])])
    t = Task("lemma_%s_slice_%d_%d" % (op, la, lb), "", [("x%d" % k, 0, B - 1) for k in range(la)] + [("y%d" % k, 0, B - 1) for k in range(lb)], spec=spec)
    t.enter, t.read, t.key, t.level = enter, read, (op, (la, lb)), 0
    return t


def step_lemmas():
    return [mulw_lemma()] + [slice_lemma("sub", la, 3) for la in (3, 4, 5)] + [slice_lemma("add", la, 2) for la in (3, 4, 5)]


# ------------------------------------------------------------------ roots of wide integers
ROOT = {w: re.compile(r"^<%s as .*ops::sqrt::Sqrt>::sqrt$" % re.escape(t)) for w, t in
        (("i128", "i128"), ("u128", "u128"), ("u256", "fixnum::i256::u256::U256"))}


def root_contract(w):
    wide = w == "u256"

    def contract(eng, st, fr, dest, rt, a, ts, fn):
        if len(a) != 2:
            return INLINE
        if ("sqrt", w) in Ctx.proven:
            n = read256(eng, st, a[1]) if wide else eng.U(st, a[1], 128)
            if w == "i128" and not eng.must(st, lt(n, 1 << 126)):
                return INLINE
        elif eng.hyp == ("sqrt", w):
            # the lemma's induction: the callee's argument is smaller than the caller's
            n = read256(eng, st, a[1]) if wide else eng.U(st, a[1], 128)
            if not (eng.must(st, ge(n, 0)) and eng.must(st, lt(n, st.notes["arg"]))):
                return INLINE
        else:
            return INLINE
        r = fp.root(eng, st, n)
        o, off = eng.getobj(st, a[0], 40 if wide else 32, write=True)
        eng.store_bytes(st, o, off, 1, 0)
        eng.store_bytes(st, o, off + (8 if wide else 16), 32 if wide else 16, r)
        eng.used_summaries.add("sqrt " + w)
        return None
    return contract


def root_lemma(w, level=0):
    """Sqrt::sqrt of a wide integer is the integer square root, by induction on the argument"""
    wide = w == "u256"
    top = 1 << {"i128": 126, "u128": 128, "u256": 256}[w]

    def enter(eng, st, A):
        name = find(eng.mod, ROOT[w])
        if name is None or not shape(eng.mod, name, ["ptr", "ptr"] if wide else ["ptr", "i128"]):
            return None
        res = eng.alloc(st, 40, "res")
        st.notes["res"], st.notes["arg"] = res, A[0]
        eng.hyp = ("sqrt", w)
        if wide:
            u = eng.alloc(st, 32, "u")
            o, _ = eng.getobj(st, u, 32, write=True)
            eng.store_bytes(st, o, 0, 32, A[0])
            return eng.mod.fn(name), [res, u]
        return eng.mod.fn(name), [res, A[0]]

    def read(eng, st, info):
        o, _ = eng.getobj(st, st.notes["res"], 40)
        n = 32 if wide else 16
        return [eng.U(st, eng.load_bytes(st, o, 0, 1), 8), eng.U(st, eng.load_bytes(st, o, 8 if wide else 16, n), 8 * n)]

    def spec(A, R):
        t, r = R.o
        r2 = pmul(r, r)
        return f_and(eq(t, 0), ge(r, 0), ge(A[0], r2), le(A[0], padd(r2, pscale(r, 2))))
    t = Task("lemma_sqrt_%s" % w, "", [("n", 0, top - 1)], spec=spec)
    t.enter, t.read, t.key, t.level = enter, read, ("sqrt", w), level
    return t


INLINE = sym.INLINE


def install(eng, lemma=False):
    if lemma:
        eng.contracts.append((NEXT, rebase))
    eng.contracts += [(MULW, mulw_contract)] + [(p, slice_contract(k)) for k, p in SLICE.items()]
    eng.contracts += [(WORD, k1_contract), (DIVMOD, k2_contract), (MUL, k3_contract)] + [(p, root_contract(w)) for w, p in ROOT.items()] + [(o.pat, o.contract) for o in OPS]


def normalised(c):
    """the words div_mod_word is called with when dividing by the constant c"""
    if c < B:
        return c
    w = (c.bit_length() + 63) // 64
    s = -c.bit_length() % 64
    return (c << s) >> 64 * (w - 1)


def const_lemmas(cs):
    cs = sorted({c for c in cs if c > 1})
    return [k1_lemma(y) for y in sorted({normalised(c) for c in cs})] + step_lemmas() + [k2_lemma(c) for c in cs] + [k3_lemma(), k3_lemma(wide=True)]


def wide_lemmas(cs, any_=False):
    """everything 128-bit products and quotients need: division by the constants cs, or by anything below 2^128"""
    ops = op_lemmas("i256_add", "i256_sub", "i256_neg", "u256_cmp", "i256_cmp", "i256_eq", "i256_mul")
    if any_:
        return [k1_lemma("any"), k1_lemma("norm"), k3_lemma(), k3_lemma(wide=True)] + step_lemmas() + [k2_lemma("any")] + ops
    return const_lemmas(cs) + ops


# divisors that drive long division into its rare corrections: calls with these use the summary like any other while its lemma holds, and
# are executed in full, for every dividend, when it does not
HARD_DIVISORS = ((1 << 126) + B - 1, (1 << 64) + 1, (1 << 65) - 1, 1 << 64, (1 << 127) - 1, 87765910786183534373702920664797675519,
                 1178962049320754920503856, (1 << 96) - 1, (1 << 95) + (1 << 64) - 1, B - 1, 1 << 63, (1 << 63) + (1 << 32) - 1, (1 << 32) + 1, 3)
