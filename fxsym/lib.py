"""Models of LLVM intrinsics and of the few library functions that are not in the module."""
import re, math

from .poly import *
from .llir import UNDEF
from . import sym


def install(eng):
    def m(pat, h, only_decl=True):
        eng.models.append((re.compile(pat), h, only_decl))

    m(r"^@?llvm\.(lifetime|dbg|experimental\.noalias|prefetch|donothing)", nop)
    m(r"^@?llvm\.assume", assume)
    m(r"^@?llvm\.expect", first)
    m(r"^@?llvm\.is\.constant", false)
    m(r"^@?llvm\.trap", trap)
    m(r"^@?llvm\.(s|u)(add|sub|mul)\.with\.overflow", with_overflow)
    m(r"^@?llvm\.(s|u)(add|sub)\.sat", sat)
    m(r"^@?llvm\.(s|u)cmp", cmp3)
    m(r"^@?llvm\.(s|u)(min|max)\.", minmax)
    m(r"^@?llvm\.abs\.", abs_)
    m(r"^@?llvm\.ctlz", ctlz)
    m(r"^@?llvm\.cttz", cttz)
    m(r"^@?llvm\.ctpop", ctpop)
    m(r"^@?llvm\.fsh(l|r)", fsh)
    m(r"^@?llvm\.bswap", bswap)
    m(r"^@?llvm\.mem(cpy|move)", memcpy)
    m(r"^@?llvm\.memset", memset)
    m(r"^@?memcmp$|^@?bcmp$", memcmp)
    m(r"^@?llvm\.(sqrt|fabs|copysign|floor|ceil|round|trunc|fma|minnum|maxnum|is\.fpclass|fpto[us]i\.sat)", fpm)
    m(r"core::slice::memchr::memchr_aligned", memchr_decl)
    m(r"^core::slice::memchr::memchr$", memchr_decl, False)
    m(r"__rust_alloc$|__rust_alloc_zeroed$|___rust_alloc$|___rust_alloc_zeroed$|__rustc::__rust_alloc", rust_alloc)
    m(r"__rust_dealloc$|___rust_dealloc$|__rustc::__rust_dealloc", nop_ret)
    m(r"__rust_realloc$|___rust_realloc$|__rustc::__rust_realloc", rust_realloc)
    m(r"__rust_no_alloc_shim", nop_ret)
    m(r"core::unicode::unicode_data::white_space::lookup", white_space, False)
    m(r"core::alloc::layout::Layout::is_size_align_valid", size_align)
    m(r"core::fmt::Formatter::write_str", fmt_write_str)
    m(r"core::fmt::Formatter::pad$", fmt_write_str)


def W(eng, name):
    return int(re.search(r"\.i(\d+)", name).group(1))


def done(eng, st, fr, dest, v):
    eng.finish_call(st, fr, dest, v)
    return None


def cname(ins):
    return ins[3][1].name


def white_space(eng, st, fr, dest, rt, a, ts, fn):
    """Unicode White_Space (only called for characters outside ASCII)"""
    c = a[0]
    f = f_or(between(c, 9, 13), *[between(c, l, h) for l, h in ((0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                                                                (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))])
    return done(eng, st, fr, dest, eng.simp(st, f))


def nop(eng, st, fr, dest, rt, a, ts, fn):
    return done(eng, st, fr, dest, None)


def nop_ret(eng, st, fr, dest, rt, a, ts, fn):
    return done(eng, st, fr, dest, 0)


def first(eng, st, fr, dest, rt, a, ts, fn):
    return done(eng, st, fr, dest, a[0])


def false(eng, st, fr, dest, rt, a, ts, fn):
    return done(eng, st, fr, dest, False)


def trap(eng, st, fr, dest, rt, a, ts, fn):
    raise sym.End("panic", "trap")


def assume(eng, st, fr, dest, rt, a, ts, fn):
    c = eng.simp(st, eng.boolv(st, a[0]))
    if c is not True and not eng.must(st, c):
        if c is False or not eng.possible(st, c):
            raise sym.End("ub", "assume violated in " + fr.fn.demangled)
        raise sym.Fork([c, f_not(c)])
    return done(eng, st, fr, dest, None)


def callee_name(fr):
    return fr.fn.blocks[fr.blk][fr.ip][3][1].name


def with_overflow(eng, st, fr, dest, rt, a, ts, fn):
    n = callee_name(fr)
    w = ts[0].n
    mm = re.search(r"llvm\.(s|u)(add|sub|mul)", n)
    signed, op = mm.group(1) == "s", mm.group(2)
    if a[0] is UNDEF or a[1] is UNDEF:
        raise sym.End("ub", "undef operand")
    x, y = eng.canon(st, a[0], w, signed), eng.canon(st, a[1], w, signed)
    p = padd(x, y) if op == "add" else psub(x, y) if op == "sub" else eng.product(st, x, y)
    lo = -(1 << w - 1) if signed else 0
    hi = lo + (1 << w) - 1
    f = eng.simp(st, f_or(lt(p, lo), gt(p, hi)))
    if f is not True and f is not False and not signed and op in ("add", "sub"):
        st.defs[("flag", f)] = (p, w, 1 if op == "add" else -1)
    return done(eng, st, fr, dest, [p, f])


def sat(eng, st, fr, dest, rt, a, ts, fn):
    n = callee_name(fr)
    w = ts[0].n
    mm = re.search(r"llvm\.(s|u)(add|sub)", n)
    signed, op = mm.group(1) == "s", mm.group(2)
    x, y = eng.canon(st, a[0], w, signed), eng.canon(st, a[1], w, signed)
    p = padd(x, y) if op == "add" else psub(x, y)
    lo = -(1 << w - 1) if signed else 0
    hi = lo + (1 << w) - 1
    r = pick(eng, st, [(between(p, lo, hi), p), (lt(p, lo), lo), (gt(p, hi), hi)])
    return done(eng, st, fr, dest, r)


def pick(eng, st, alts):
    """value of the first alternative known to hold; forks when undetermined"""
    live = []
    for f, v in alts:
        f = eng.simp(st, f)
        if f is True:
            return v
        if f is False:
            continue
        live.append((f, v))
    ok = [(f, v) for f, v in live if eng.possible(st, f)]
    if not ok:
        raise sym.Infeasible()
    if len(ok) == 1:
        eng.learn(st, ok[0][0])
        return ok[0][1]
    raise sym.Fork([f for f, _ in ok])


def cmp3(eng, st, fr, dest, rt, a, ts, fn):
    n = callee_name(fr)
    signed = "scmp" in n
    w = ts[0].n
    x, y = eng.canon(st, a[0], w, signed), eng.canon(st, a[1], w, signed)
    return done(eng, st, fr, dest, pick(eng, st, [(lt(x, y), -1), (eq(x, y), 0), (gt(x, y), 1)]))


def minmax(eng, st, fr, dest, rt, a, ts, fn):
    n = callee_name(fr)
    mm = re.search(r"llvm\.(s|u)(min|max)", n)
    signed = mm.group(1) == "s"
    w = ts[0].n
    x, y = eng.canon(st, a[0], w, signed), eng.canon(st, a[1], w, signed)
    if mm.group(2) == "max":
        r = pick(eng, st, [(ge(x, y), x), (lt(x, y), y)])
    else:
        r = pick(eng, st, [(le(x, y), x), (gt(x, y), y)])
    return done(eng, st, fr, dest, r)


def abs_(eng, st, fr, dest, rt, a, ts, fn):
    w = ts[0].n
    x = eng.S(st, a[0], w)
    return done(eng, st, fr, dest, pick(eng, st, [(ge(x, 0), x), (lt(x, 0), pscale(x, -1))]))


def ctlz(eng, st, fr, dest, rt, a, ts, fn):
    w = ts[0].n
    x = eng.U(st, a[0], w)
    if type(x) is not Poly:
        r = w - x.bit_length()
    else:
        lo, hi = eng.iv(st, x)
        l, h = w - hi.bit_length(), w - lo.bit_length()
        if l == h:
            r = l
        else:
            key = ("ctlz", x, w)
            new = key not in st.defs
            at = eng.fresh(st, key, "lz%d" % len(eng.atoms.info), l, h, ("ctlz", x, w))
            r = atom_poly(at)
            if new:
                if h == w:
                    eng.add_pc(st, f_or(f_and(eq(r, w), eq(x, 0)), f_and(lt(r, w), gt(x, 0))))
                # order lemmas with the other ctlz atoms of this path
                for k2, r2 in list(st.defs.items()):
                    if k2[0] == "ctlz" and k2[2] == w:
                        x2 = k2[1]
                        eng.add_pc(st, f_imp(gt(r, r2), lt(x, x2)))
                        eng.add_pc(st, f_imp(lt(r, r2), gt(x, x2)))
                st.defs[key] = r
    return done(eng, st, fr, dest, r)


def cttz(eng, st, fr, dest, rt, a, ts, fn):
    w = ts[0].n
    x = eng.U(st, a[0], w)
    if type(x) is not Poly:
        r = w if x == 0 else (x & -x).bit_length() - 1
        return done(eng, st, fr, dest, r)
    # fork: x == 0, or x = (2j+1) * 2^k
    if eng.possible(st, eq(x, 0)):
        if eng.possible(st, gt(x, 0)):
            raise sym.Fork([eq(x, 0), gt(x, 0)])
        return done(eng, st, fr, dest, w)
    key = ("cttz", x, w)
    if key in st.defs:
        return done(eng, st, fr, dest, st.defs[key])
    hi = eng.iv(st, x)[1]
    # low zero bits known from the coefficients
    k = eng.low_zero_bits(x)
    n = hi.bit_length()
    k = min(k, n)
    while k < n:
        low = psub(eng.floordiv(st, x, 1 << k), pmul(2, eng.floordiv(st, x, 1 << (k + 1))))
        f1 = eng.simp(st, eq(low, 1))
        if f1 is True or eng.must(st, f1):
            break
        if f1 is False or not eng.possible(st, f1):
            eng.learn(st, eq(low, 0))
            k += 1
            continue
        raise sym.Fork([f1, f_not(f1)])
    return done(eng, st, fr, dest, k)


def ctpop(eng, st, fr, dest, rt, a, ts, fn):
    w = ts[0].n
    x = eng.U(st, a[0], w)
    c = eng.const_of(st, x)
    if c is None:
        eng.fork_values(st, x)
    return done(eng, st, fr, dest, bin(c).count("1"))


def fsh(eng, st, fr, dest, rt, a, ts, fn):
    n = callee_name(fr)
    w = ts[0].n
    s = eng.const_of(st, a[2])
    if s is None:
        eng.fork_values(st, a[2])
    s %= w
    left = "fshl" in n
    if s == 0:
        return done(eng, st, fr, dest, a[0] if left else a[1])
    if not left:
        s = w - s
    hi, lo = a[0], eng.U(st, a[1], w)
    r = padd(pmul(hi, 1 << s), eng.floordiv(st, lo, 1 << (w - s)))
    return done(eng, st, fr, dest, r)


def bswap(eng, st, fr, dest, rt, a, ts, fn):
    w = ts[0].n
    x = eng.U(st, a[0], w)
    r = 0
    for i in range(w // 8):
        b = psub(eng.floordiv(st, x, 1 << 8 * i), pmul(256, eng.floordiv(st, x, 1 << 8 * (i + 1))))
        r = padd(r, pmul(b, 1 << (w - 8 - 8 * i)))
    return done(eng, st, fr, dest, r)


def conc(eng, st, v):
    c = eng.const_of(st, v)
    if c is None:
        eng.fork_values(st, v)
    return c


def memcpy(eng, st, fr, dest, rt, a, ts, fn):
    n = conc(eng, st, eng.U(st, a[2], 64))
    eng.memcpy(st, a[0], a[1], n)
    return done(eng, st, fr, dest, None)


def memset(eng, st, fr, dest, rt, a, ts, fn):
    n = conc(eng, st, eng.U(st, a[2], 64))
    if n:
        if a[1] is UNDEF:
            o, off = eng.getobj(st, a[0], n, write=True)
            eng.store_bytes(st, o, off, n, UNDEF)
            del o.cells[off]
            return done(eng, st, fr, dest, None)
        b = conc(eng, st, eng.U(st, a[1], 8))
        o, off = eng.getobj(st, a[0], n, write=True)
        eng.store_bytes(st, o, off, n, bytes([b]) * n)
    return done(eng, st, fr, dest, None)


def memcmp(eng, st, fr, dest, rt, a, ts, fn):
    n = conc(eng, st, eng.U(st, a[2], 64))
    if n == 0:
        return done(eng, st, fr, dest, 0)
    x = [eng.U(st, v, 8) for v in eng.read_mem(st, a[0], n)]
    y = [eng.U(st, v, 8) for v in eng.read_mem(st, a[1], n)]
    alts = [(f_and(*[eq(p, q) for p, q in zip(x, y)]), 0)]
    pre = []
    for p, q in zip(x, y):
        alts.append((f_and(*(pre + [lt(p, q)])), -1))
        alts.append((f_and(*(pre + [gt(p, q)])), 1))
        pre.append(eq(p, q))
    return done(eng, st, fr, dest, pick(eng, st, alts))


def memchr_decl(eng, st, fr, dest, rt, a, ts, fn):
    """memchr(byte, ptr, len) -> Option<usize> as {i64, i64}"""
    n = conc(eng, st, eng.U(st, a[2], 64))
    c = eng.U(st, a[0], 8)
    if n == 0:
        return done(eng, st, fr, dest, [0, UNDEF])
    bs = [eng.U(st, v, 8) for v in eng.read_mem(st, a[1], n)]
    pre = []
    alts = []
    for i, b in enumerate(bs):
        alts.append((f_and(*(pre + [eq(b, c)])), [1, i]))
        pre.append(ne(b, c))
    alts.append((f_and(*pre), [0, 0]))
    return done(eng, st, fr, dest, pick(eng, st, alts))


def rust_alloc(eng, st, fr, dest, rt, a, ts, fn):
    n = conc(eng, st, eng.U(st, a[0], 64))
    addr = eng.alloc(st, n, "heap")
    nm = callee_name(fr)
    if "zeroed" in nm:
        o, off = eng.getobj(st, addr, n, write=True)
        eng.store_bytes(st, o, 0, n, bytes(n))
    return done(eng, st, fr, dest, addr)


def size_align(eng, st, fr, dest, rt, a, ts, fn):
    n, al = conc(eng, st, eng.U(st, a[0], 64)), conc(eng, st, eng.U(st, a[1], 64))
    return done(eng, st, fr, dest, al > 0 and al & (al - 1) == 0 and n <= (1 << 63) - al)


def rust_realloc(eng, st, fr, dest, rt, a, ts, fn):
    old = conc(eng, st, eng.U(st, a[1], 64))
    n = conc(eng, st, eng.U(st, a[3], 64))
    addr = eng.alloc(st, n, "heap")
    if min(old, n):
        eng.memcpy(st, addr, a[0], min(old, n))
    return done(eng, st, fr, dest, addr)


def fmt_write_str(eng, st, fr, dest, rt, a, ts, fn):
    """Formatter::write_str / pad without options: forwards to the writer found in the Formatter"""
    o, off = eng.getobj(st, a[0], 24)
    slots = [eng.load_bytes(st, o, off + 8 * i, 8) for i in range(3)]
    for i in range(2):
        vt = slots[i + 1]
        if isinstance(vt, int) and (vt >> sym.OBJ_SHIFT) in eng.base_mem:
            f = eng.load_bytes(st, eng.base_mem[vt >> sym.OBJ_SHIFT], (vt & 0xffffffff) + 24, 8)
            name = eng.addrfn.get(f)
            if name in eng.mod.fns:
                fn2 = eng.mod.fn(name)
                nf = sym.Frame(fn2)
                for (nm, t), v in zip(fn2.params, [slots[i], a[1], a[2]]):
                    nf.regs[nm] = v
                nf.dest = dest
                st.frames.append(nf)
                eng.encoded.setdefault(fn2.demangled, fn2.ncode)
                return None
    raise sym.Unsupported("formatter layout")


def fpm(eng, st, fr, dest, rt, a, ts, fn):
    from . import fp
    return done(eng, st, fr, dest, fp.intrinsic(eng, st, callee_name(fr), rt, a, ts))
