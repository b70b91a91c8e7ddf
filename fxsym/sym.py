"""Symbolic executor for LLVM IR over integer polynomials."""
import time, struct
from math import gcd

from .poly import *
from . import poly as _poly
from .llir import GRef, UNDEF, Undef, zero_of, undef_of

INF = 1 << 2000


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


INLINE = object()  # a summary declines: execute the function itself


class End(Exception):
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Flt:
    """double: kind 'bits' (integer bit pattern poly), 'int' (rounded conversion of an integer poly),
    'sqrt' (correctly rounded root of a rounded integer), 'real' (real-valued poly, see fp.py)"""
    __slots__ = ("kind", "v", "x")

    def __init__(self, kind, v, x=None):
        self.kind, self.v, self.x = kind, v, x

    def __repr__(self):
        return "Flt(%s,%s)" % (self.kind, self.v)


FORGOTTEN = "forgotten"


class Obj:
    __slots__ = ("size", "cells", "own", "ro", "name")

    def __init__(self, size, name="", ro=False):
        self.size = size
        self.cells = {}
        self.own = None
        self.ro = ro
        self.name = name


class Frame:
    __slots__ = ("fn", "regs", "blk", "prev", "ip", "dest", "hook", "allocas")

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.blk = fn.entry
        self.prev = None
        self.ip = 0
        self.dest = None
        self.hook = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.blk, f.prev, f.ip, f.dest, f.hook = self.fn, dict(self.regs), self.blk, self.prev, self.ip, self.dest, self.hook
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ab = {}  # atom -> (lo, hi)
        self.facts = {}  # normal form -> (lo, hi)
        self.defs = {}  # key -> atom / result
        self.monos = set()
        self.steps = 0
        self.forks = 0
        self.nobj = 1
        self.notes = {}
        self.depth_limit = None
        self.prods = ()  # products of symbolic terms that occurred

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ab = dict(self.ab)
        s.facts = dict(self.facts)
        s.defs = dict(self.defs)
        s.monos = set(self.monos)
        s.steps = self.steps
        s.forks = self.forks + 1
        s.nobj = self.nobj
        s.notes = dict(self.notes)
        s.depth_limit = self.depth_limit
        s.prods = self.prods
        return s


class Atoms:
    def __init__(self):
        self.keys = {}
        self.info = []

    def get(self, key, name, info):
        a = self.keys.get(key)
        if a is None:
            a = len(self.info)
            self.keys[key] = a
            self.info.append(info)
            ATOMNAMES.append(name)
        return a


OBJ_SHIFT = 32
FN_BASE = 1 << 60


class Engine:
    def __init__(self, mod, smt, max_steps=400000, max_paths=20000, deadline=None):
        self.mod = mod
        self.smt = smt
        self.atoms = Atoms()
        self.globals = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.gobjs = {}
        self.base_mem = {}
        self.nglob = 1
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.encoded = {}
        self.steps = 0
        self.forks = 0
        self.paths = 0
        self.models = []
        self.contracts = []
        self.contract_fns = set()
        self.used_summaries = set()
        self.hyp = None  # induction hypothesis of a lemma
        self.rebased = 0
        self.merged = []
        self.loop_hook = None
        self.modelcache = {}
        self.input_atoms = []
        self.max_fork_values = 300
        self.fork_log = {}
        self.trace = False
        self.feas_ms = None
        self.refine_rounds = 0
        self.light = False  # floors: split off exact multiples only
        self.refined = 0
        from . import lib
        lib.install(self)

    # =============================================================== atoms / bounds
    def new_input(self, st, name, lo, hi, real=False):
        a = self.atoms.get(("in", name), name, ("in", name))
        if real:
            REAL_ATOMS.add(a)
        if a not in self.input_atoms:
            self.input_atoms.append(a)
        p = atom_poly(a)
        st.ab[a] = (lo, hi)
        self.add_pc(st, ge(p, lo))
        self.add_pc(st, ge(hi, p))
        return p

    def fresh(self, st, key, name, lo, hi, info):
        """define (once per path) a derived atom with static bounds"""
        a = self.atoms.get(key, name, info)
        if a not in st.ab:
            st.ab[a] = (lo, hi)
            p = atom_poly(a)
            if lo > -INF:
                self.add_pc(st, ge(p, lo))
            if hi < INF:
                self.add_pc(st, ge(hi, p))
        return a

    def mono_iv(self, st, m):
        if len(m) == 1:
            return st.ab.get(m[0], (-INF, INF))
        i = 0
        lo, hi = 1, 1
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            l, h = st.ab.get(m[i], (-INF, INF))
            e = j - i
            if e > 1:
                if e % 2 == 0:
                    if l >= 0:
                        l, h = l ** e, h ** e
                    elif h <= 0:
                        l, h = h ** e, l ** e
                    else:
                        l, h = 0, max(-l, h) ** e
                else:
                    l, h = l ** e, h ** e
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
            i = j
        f = st.facts.get(((m, 1),))
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        return lo, hi

    def iv(self, st, p):
        if type(p) is not Poly:
            return p, p
        lo = hi = p.c
        for m, k in p.t.items():
            l, h = self.mono_iv(st, m)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if len(p.t) > 1 or True:
            g, n = p.norm()
            f = st.facts.get(n)
            if f:
                if g > 0:
                    lo, hi = max(lo, p.c + g * f[0]), min(hi, p.c + g * f[1])
                else:
                    lo, hi = max(lo, p.c + g * f[1]), min(hi, p.c + g * f[0])
        return lo, hi

    def learn_bounds(self, st, p, lo, hi):
        """record lo <= p <= hi (None = unknown)"""
        if type(p) is not Poly:
            return
        g, n = p.norm()
        if g > 0:
            l = None if lo is None else -((p.c - lo) // g)
            h = None if hi is None else (hi - p.c) // g
        else:
            l = None if hi is None else -((hi - p.c) // -g)
            h = None if lo is None else (p.c - lo) // -g
        if len(n) == 1 and len(n[0][0]) == 1:
            a = n[0][0][0]
            if a in REAL_ATOMS:
                return
            ol, oh = st.ab.get(a, (-INF, INF))
            st.ab[a] = (ol if l is None else max(ol, l), oh if h is None else min(oh, h))
        else:
            if any(a in REAL_ATOMS for m, _ in n for a in m):
                return
            ol, oh = st.facts.get(n, (-INF, INF))
            st.facts[n] = (ol if l is None else max(ol, l), oh if h is None else min(oh, h))

    def learn(self, st, f):
        if f is True or f is False:
            return
        k = f[0]
        if k == "ge":
            self.learn_bounds(st, f[1], 0, None)
        elif k == "eq":
            self.learn_bounds(st, f[1], 0, 0)
        elif k == "ne":
            lo, hi = self.iv(st, f[1])
            if lo == 0:
                self.learn_bounds(st, f[1], 1, None)
            elif hi == 0:
                self.learn_bounds(st, f[1], None, -1)
        elif k == "and":
            for x in f[1]:
                self.learn(st, x)

    def simp(self, st, f):
        """simplify with interval facts and atom definitions"""
        if f is True or f is False:
            return f
        k = f[0]
        if k in ("ge", "eq", "ne"):
            p = f[1]
            if type(p) is not Poly:
                return {"ge": p >= 0, "eq": p == 0, "ne": p != 0}[k]
            lo, hi = self.iv(st, p)
            if k == "ge":
                if lo >= 0:
                    return True
                if hi < 0:
                    return False
            else:
                if lo > 0 or hi < 0:
                    return k == "ne"
                if lo == hi == 0:
                    return k == "eq"
            if len(p.t) == 1:
                (m, co), = p.t.items()
                if len(m) == 1 and co in (1, -1):
                    info = self.atoms.info[m[0]]
                    if info[0] == "b2i":
                        g = info[1]
                        if k == "ge":
                            # a - 1 >= 0 (a true)  /  -a >= 0 (a false)
                            return self.simp(st, g if co == 1 else f_not(g))
                        v = -p.c * co
                        r = g if v == 1 else f_not(g)
                        return self.simp(st, r if k == "eq" else f_not(r))
                    if info[0] == "ctlz":
                        x, w = info[1], info[2]

                        def L_le(n):  # L <= n
                            if n >= w:
                                return True
                            if n < 0:
                                return False
                            return ge(x, 1 << (w - 1 - n))
                        if k == "ge":
                            r = L_le(p.c) if co == -1 else f_not(L_le(-p.c - 1))
                        else:
                            v = -p.c * co
                            r = f_and(L_le(v), f_not(L_le(v - 1)))
                            if k == "ne":
                                r = f_not(r)
                        return self.simp(st, r)
            return f
        if k == "and":
            return f_and(*[self.simp(st, x) for x in f[1]])
        if k == "or":
            return f_or(*[self.simp(st, x) for x in f[1]])
        return f

    # monomial axioms (sign, bounds, McCormick envelope) asserted on first appearance
    def mono_axioms(self, st, m):
        if m in st.monos or len(m) < 2:
            return
        st.monos.add(m)
        if any(a in REAL_ATOMS for a in m):
            return
        P_ = Poly(0, {m: 1})
        lo, hi = self.mono_iv(st, m)
        ax = []
        if lo > -INF:
            ax.append(ge(P_, lo))
        if hi < INF:
            ax.append(ge(hi, P_))
        x, y = (m[0],), m[1:]
        if len(m) > 2:
            self.mono_axioms(st, y)
        X, Y = Poly(0, {x: 1}), Poly(0, {y: 1})
        xl, xh = self.mono_iv(st, x)
        yl, yh = self.mono_iv(st, y)
        if len(m) == 2 and m[0] == m[1]:
            # square: tangents at the bounds and at 0/1
            for c in {xl, xh, 0, 1, -1}:
                if abs(c) < INF:
                    ax.append(ge(P_, psub(pscale(X, 2 * c), c * c)))
            if abs(xl) < INF and abs(xh) < INF:
                ax.append(ge(psub(pscale(X, xl + xh), xl * xh), P_))
        else:
            for (c, d, s) in ((xl, yl, 1), (xh, yh, 1), (xl, yh, -1), (xh, yl, -1)):
                if abs(c) < INF and abs(d) < INF:
                    # s * (X-c)*(Y-d) >= 0
                    e = padd(psub(psub(P_, pscale(X, d)), pscale(Y, c)), c * d)
                    ax.append(ge0(pscale(e, s)))
            if xl < 0 < xh or yl < 0 < yh:
                ax.append(f_imp(f_and(ge(X, 1), ge(Y, 1)), f_and(ge(P_, X), ge(P_, Y))))
                ax.append(f_imp(f_and(ge(X, 1), le(Y, -1)), f_and(le(P_, pscale(X, -1)), le(P_, Y))))
                ax.append(f_imp(f_and(le(X, -1), ge(Y, 1)), f_and(le(P_, X), le(P_, pscale(Y, -1)))))
                ax.append(f_imp(f_and(le(X, -1), le(Y, -1)), f_and(ge(P_, pscale(X, -1)), ge(P_, pscale(Y, -1)))))
                ax.append(f_imp(f_or(eq(X, 0), eq(Y, 0)), eq(P_, 0)))
        for f in ax:
            if f is not True:
                st.pc.append(f)

    def prep(self, st, f):
        ps = []
        f_polys(f, ps)
        for p in ps:
            if type(p) is Poly:
                for m in p.t:
                    if len(m) > 1:
                        self.mono_axioms(st, m)

    def add_pc(self, st, f):
        if f is True:
            return
        self.prep(st, f)
        st.pc.append(f)

    def assume(self, st, f):
        """add f to the path; raises Infeasible if trivially false"""
        f = self.simp(st, f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if f[0] == "and":
            for x in f[1]:
                self.assume(st, x)
            return
        self.learn(st, f)
        self.add_pc(st, f)

    def possible(self, st, f):
        """is f satisfiable on this path (linear relaxation)? unknown counts as possible"""
        f = self.simp(st, f)
        if f is True:
            return True
        if f is False:
            return False
        self.prep(st, f)
        return self.query(st, f, timeout=self.feas_ms)[0] != "unsat"

    def query(self, st, f, rounds=None, **kw):
        """satisfiability of f on this path, the linear relaxation being refined where its model breaks a product"""
        rounds = self.refine_rounds if rounds is None else rounds
        ref = bool(rounds and st.prods)
        want = kw.pop("want_model", False) or ref
        r, m = self.smt.check(st.pc, f, want_model=want, **kw)
        if ref:
            n = 0
            while r == "sat" and n < rounds:
                lem = self.refine(st, m)
                if not lem:
                    break
                self.refined += len(lem)
                n += 1
                for g in lem:
                    self.add_pc(st, g)
                r, m = self.smt.check(st.pc, f, want_model=True, **kw)
        return r, m

    def product(self, st, a, b):
        if type(a) is Poly and type(b) is Poly:
            k = (a, b)
            if ("prod", k) not in st.defs:
                st.defs[("prod", k)] = True
                st.prods = st.prods + (k,)
        return pmul(a, b)

    def refine(self, st, m):
        """instances of product lemmas which the model breaks (incremental linearisation)"""
        out = []

        def ev(p):
            if type(p) is not Poly:
                return p
            v = p.c
            for mm, k in p.t.items():
                x = m.get(mm[0] if len(mm) == 1 else mm, 0)
                v += k * x
            return v
        for A, B in st.prods:
            P_ = pmul(A, B)
            a, b, p = ev(A), ev(B), ev(P_)
            if p == a * b:
                continue
            got = False
            al, ah = self.iv(st, A)
            bl, bh = self.iv(st, B)
            for (c, d, s) in ((al, bl, 1), (ah, bh, 1), (al, bh, -1), (ah, bl, -1)):
                if abs(c) < INF and abs(d) < INF and s * (p - c * b - d * a + c * d) < 0:
                    out.append(ge0(pscale(padd(psub(psub(P_, pscale(B, c)), pscale(A, d)), c * d), s)))
                    got = True
            if got:
                continue
            # tangent plane at the model
            T = padd(padd(pscale(B, a), pscale(A, b)), -a * b)
            if p < a * b:
                out.append(f_or(lt(A, a), lt(B, b), ge(P_, T)))
                out.append(f_or(gt(A, a), gt(B, b), ge(P_, T)))
            else:
                out.append(f_or(gt(A, a), lt(B, b), le(P_, T)))
                out.append(f_or(lt(A, a), gt(B, b), le(P_, T)))
        return out

    def must(self, st, f):
        f = self.simp(st, f)
        if f is True or f is False:
            return f
        if not self.possible(st, f_not(f)):
            self.learn(st, f)
            return True
        return False

    # =============================================================== arithmetic
    def canon(self, st, p, w, signed):
        M = 1 << w
        L = -(M >> 1) if signed else 0
        if p is UNDEF:
            raise End("ub", "use of undef")
        if type(p) is bool:
            p = int(p)
        if type(p) is tuple:
            p = self.b2i(st, p)
        if type(p) is not Poly:
            return (p - L) % M + L
        lo, hi = self.iv(st, p)
        k1, k2 = (lo - L) // M, (hi - L) // M
        if k1 == k2:
            return psub(p, k1 * M)
        key = ("canon", p, w, signed)
        r = st.defs.get(key)
        if r is not None:
            return r
        if k2 - k1 > 3:
            if self.must(st, between(p, L, L + M - 1)):
                st.defs[key] = p
                return p
            t = {}
            for m, k in p.t.items():
                k = (k + M // 2) % M - M // 2
                if k:
                    t[m] = k
            p2 = mk((p.c - L) % M + L, t)
            if type(p2) is not Poly:
                return (p2 - L) % M + L
            if p2.t != p.t:
                r = self.canon(st, p2, w, signed)
                st.defs[key] = r
                return r
        if k2 - k1 <= 3:
            ks = []
            for k in sorted(range(k1, k2 + 1), key=abs):
                if self.possible(st, between(p, L + k * M, L + k * M + M - 1)):
                    ks.append(k)
            if not ks:
                raise Infeasible()
            if len(ks) == 1:
                k = ks[0]
                self.learn_bounds(st, p, L + k * M, L + k * M + M - 1)
                r = psub(p, k * M)
                st.defs[key] = r
                return r
            self.learn_bounds(st, p, L + min(ks) * M, L + max(ks) * M + M - 1)
        q = self.floordiv(st, psub(p, L), M)
        r = psub(p, pmul(q, M))
        st.defs[key] = r
        return r

    def U(self, st, p, w):
        return self.canon(st, p, w, False)

    def S(self, st, p, w):
        return self.canon(st, p, w, True)

    def const_of(self, st, p):
        if type(p) is bool:
            return int(p)
        if type(p) is not Poly:
            return p if isinstance(p, int) else None
        lo, hi = self.iv(st, p)
        return lo if lo == hi else None

    def floordiv(self, st, n, d, nodef=False):
        """floor(n/d), d > 0 (nodef: the caller asserts an equivalent definition of the result)"""
        if type(d) is Poly:
            c = self.const_of(st, d)
            if c is not None:
                d = c
        if type(d) is not Poly:
            if type(n) is not Poly:
                return n // d
            if d == 1:
                return n
            r = self.reciprocal(st, n, d, nodef)
            if r is not None:
                return r
            A = {}
            B = {}
            h = (d - 1) // 2
            for m, k in n.t.items():
                q = (k + h) // d if not self.light or k % d == 0 else 0
                if q:
                    A[m] = q
                    k -= q * d
                if k:
                    B[m] = k
            ac, bc = divmod(n.c, d)
            Ap, Bp = mk(ac, A), mk(bc, B)
            if type(Bp) is not Poly:
                return Ap  # 0 <= bc < d
            g = d
            for k in Bp.t.values():
                g = gcd(g, k)
            if g > 1:
                Bp = Poly(Bp.c // g, {m: k // g for m, k in Bp.t.items()})
                d //= g
                if d == 1:
                    return padd(Ap, Bp)
            lo, hi = self.iv(st, Bp)
            if lo // d == hi // d:
                return padd(Ap, lo // d)
            # floor((P + floor(n/e)) / d) = floor((P*e + n) / (e*d)) for integer P
            cand = [m for m, k in Bp.t.items() if k == 1 and len(m) == 1 and self.atoms.info[m[0]][0] == "div" and
                    type(self.atoms.info[m[0]][2]) is not Poly]
            if len(cand) == 1:
                info = self.atoms.info[cand[0][0]]
                n2 = padd(pscale(psub(Bp, Poly(0, {cand[0]: 1})), info[2]), info[1])
                r = self.floordiv(st, n2, info[2] * d, nodef=True)
                rest = psub(Bp, pscale(r, d))
                if type(rest) is Poly:
                    self.learn_bounds(st, rest, 0, d - 1)
                    self.add_pc(st, ge(rest, 0))
                    self.add_pc(st, gt(d, rest))
                return padd(Ap, r)
            r = self.reciprocal(st, Bp, d, nodef)
            if r is not None:
                return padd(Ap, r)
            if len(Bp.t) == 1 and hi // d - lo // d < 40:
                (m, k), = Bp.t.items()
                if len(m) == 1 and k in (1, -1) and self.atoms.info[m[0]][0] == "ctlz":
                    alts = []
                    for v in range(lo // d, hi // d + 1):
                        f = self.simp(st, between(Bp, v * d, v * d + d - 1))
                        if f is True:
                            return padd(Ap, v)
                        if f is not False:
                            alts.append(between(Bp, v * d, v * d + d - 1))
                    raise Fork(alts)
            return padd(Ap, self.divatom(st, Bp, d, lo // d, hi // d, nodef))
        if type(n) is not Poly and n == 0:
            return 0
        # polynomial long division by a monic linear divisor  v + rest
        Q = 0
        piv = None
        for m, k in d.t.items():
            if len(m) == 1 and abs(k) == 1 and (piv is None or m[0] > piv[0]) and not any(
                    m[0] in m2 for m2 in d.t if m2 != m):
                piv = (m[0], k)
        R = n
        if piv is not None and piv[1] == 1 and ("rootof", piv[0]) in st.defs and st.defs[("rootof", piv[0])] == n:
            # n = v^2 + e with 0 <= e <= 2v, divided by v + c
            Q = psub(atom_poly(piv[0]), psub(d, atom_poly(piv[0])))
            R = psub(n, pmul(Q, d))
        elif piv is not None and type(n) is Poly:
            v, s = piv
            for _ in range(8):
                q = {}
                if type(R) is not Poly:
                    break
                for m, k in R.t.items():
                    if v in m:
                        mm = list(m)
                        mm.remove(v)
                        q[tuple(mm)] = k * s
                if not q:
                    break
                if set(q) == {()} and abs(q[()]) <= 1 and len(R.t) <= 2 and False:
                    break
                qc = q.pop((), 0)
                qp = mk(qc, q)
                Q = padd(Q, qp)
                R = psub(R, pmul(qp, d))
            else:
                Q, R = 0, n
        # keep R small: choose whichever of the last quotients gives a non-negative, narrow remainder
        lo, hi = self.iv(st, R)
        dl, dh = self.iv(st, d)
        if lo >= 0 and (hi < dl):
            return Q
        key = ("div", R, d)
        if key in st.defs:
            return padd(Q, st.defs[key])
        # few possible quotient values -> fork on them (keeps everything linear)
        cand = []
        klo = None
        for k in (0, -1, -2, -3):
            if self.must(st, ge(R, pmul(k, d))):
                klo = k
                break
        if klo is not None:
            for k in range(klo + 1, klo + 5):
                if self.must(st, lt(R, pmul(k, d))):
                    cand = list(range(klo, k))
                    break
        while len(cand) > 1 and self.must(st, ge(R, pmul(cand[0] + 1, d))):
            cand.pop(0)
        if len(cand) == 1:
            return padd(Q, cand[0])
        if cand:
            raise Fork([f_and(ge(R, pmul(k, d)), lt(R, pmul(k + 1, d))) for k in cand])
        if not (type(Q) is not Poly and Q == 0):
            # the polynomial split did not help: divide directly
            R, Q = n, 0
            lo, hi = self.iv(st, R)
        dl = max(dl, 1)
        cs = (lo // dl, lo // dh, hi // dl, hi // dh)
        q = self.divatom(st, R, d, min(cs), max(cs))
        return padd(Q, q)

    def reciprocal(self, st, n, d, nodef):
        """multiplication by a scaled reciprocal: floor((k*X + c) / d) = floor(X / d2) with d2 = ceil(d / k)"""
        g0, nn = n.norm()
        k = abs(g0)
        g = gcd(gcd(k, d), n.c)
        if g > 1:
            n = Poly(n.c // g, {m: v // g for m, v in n.t.items()})
            k //= g
            d //= g
        if 1 < k < d:
            r = self.recip(st, mk(0, {m: v // k for m, v in n.t.items()}), k, n.c, d, nodef)
            if r is not None:
                return r
        # n = k*X modulo d
        if d >= 1 << 12 and len(n.t) <= 6 and (len(n.t) > 1 or n.c):
            seen = set()
            for m, k in sorted(n.t.items(), key=lambda x: x[0]):
                k = (k + (d - 1) // 2) % d - (d - 1) // 2
                k = abs(k)
                if k in seen or not 64 < k or gcd(k, d) != 1 or len(seen) > 2:
                    continue
                seen.add(k)
                inv = pow(k, -1, d)
                h = (d - 1) // 2
                c = (n.c * inv + h) % d - h
                X = {m2: (v * inv + h) % d - h for m2, v in n.t.items()}
                if any(abs(v) * 64 > d for v in X.values()) or abs(c) * 64 > d:
                    continue
                Y = {m2: (n.t[m2] - k * v) // d for m2, v in X.items()}
                Y = mk((n.c - k * c) // d, {m2: v for m2, v in Y.items() if v})
                r = self.recip(st, mk(c, X), k, 0, d, nodef)
                if r is not None:
                    return padd(Y, r)
        return None

    def recip(self, st, X, k, c, d, nodef):
        d2 = -(-d // k)
        e = k * d2 - d
        xl, xh = self.iv(st, X)
        if max(abs(xl), abs(xh)) < INF:
            ql, qh = xl // d2, xh // d2
            if e * ql + c >= 0 and e * qh + k * (d2 - 1) + c < d:
                return self.floordiv(st, X, d2, nodef)
        return None

    def divatom(self, st, n, d, lo, hi, nodef=False):
        key = ("div", n, d)
        q = st.defs.get(key)
        if q is not None:
            return q
        a = self.fresh(st, key, "q%d" % len(self.atoms.info), lo, hi, ("div", n, d))
        q = atom_poly(a)
        st.defs[key] = q
        r = psub(n, self.product(st, q, d))
        dh = self.iv(st, d)[1]
        self.learn_bounds(st, r, 0, dh - 1)
        if type(d) is not Poly:
            # floors of the same numerator by multiples of each other
            fam = st.defs.get(("fam", n), ())
            dn = max((x for x in fam if d % x == 0), default=None)
            up = min((x for x in fam if x % d == 0), default=None)
            st.defs[("fam", n)] = fam + (d,)
            for small, big in ((dn, d), (d, up)):
                if small is not None and big is not None:
                    k = big // small
                    rest = psub(st.defs[("div", n, small)], pscale(st.defs[("div", n, big)], k))
                    self.learn_bounds(st, rest, 0, k - 1)
                    self.add_pc(st, ge(rest, 0))
                    self.add_pc(st, gt(k, rest))
                    nodef = nodef or small == dn
        if not nodef:
            self.add_pc(st, ge(r, 0))
            self.add_pc(st, gt(d, r))
        return q

    def b2i(self, st, f):
        f = self.simp(st, f)
        if f is True:
            return 1
        if f is False:
            return 0
        # f of the form (atom in {0,1}) compared with a constant
        if f[0] in ("ge", "eq", "ne") and len(f[1].t) == 1:
            (m, co), = f[1].t.items()
            if len(m) == 1 and co in (1, -1) and st.ab.get(m[0]) == (0, 1):
                a = atom_poly(m[0])
                truth = {v: feval(f, lambda _: v) for v in (0, 1)}
                if truth[1] and not truth[0]:
                    return a
                if truth[0] and not truth[1]:
                    return psub(1, a)
        fm = st.defs.get(("flag", f))
        if fm is not None:
            # carry of an unsigned sum (borrow of a difference) of w-bit numbers: floor(p / 2^w) in {0, 1} ({-1, 0})
            p, w, sgn = fm
            u = self.U(st, p, w)
            k = psub(p, u)
            if type(k) is not Poly:
                return abs(k >> w)
            k = pscale(mk(k.c >> w, {m: c >> w for m, c in k.t.items()}), sgn)
            self.learn_bounds(st, k, 0, 1)
            self.add_pc(st, between(k, 0, 1))
            return k
        key = ("b2i", f)
        if key in st.defs:
            return st.defs[key]
        if f[0] == "or" and len(f[1]) == 2 and all(("flag", g) in st.defs for g in f[1]) and self.must(st, f_not(f_and(*f[1]))):
            # two carries of which at most one occurs
            r = padd(self.b2i(st, f[1][0]), self.b2i(st, f[1][1]))
            self.learn_bounds(st, r, 0, 1)
            st.defs[key] = r
            return r
        a = self.fresh(st, key, "b%d" % len(self.atoms.info), 0, 1, ("b2i", f))
        p = atom_poly(a)
        st.defs[key] = p
        self.add_pc(st, f_or(f_and(("eq", psub(p, 1)), f), f_and(("eq", p), f_not(f))))
        return p

    def fork_values(self, st, p, limit=None):
        """fork on every feasible value of p"""
        limit = limit or self.max_fork_values
        vals = []
        lo, hi = self.iv(st, p)
        if hi - lo < 40:
            vals = [v for v in range(lo, hi + 1)]
        else:
            self.prep(st, ("eq", p))
            extra = []
            while True:
                f = f_and(*extra) if extra else True
                self.prep(st, f)
                r, m = self.smt.check(st.pc + [between(p, lo, hi)], f, want_model=True)
                if r != "sat":
                    if r == "unknown":
                        raise Unsupported("value enumeration undecided")
                    break
                v = peval(p, lambda a: m.get(a, 0)) if all(len(mm) == 1 for mm in p.t) else None
                if v is None:
                    raise Unsupported("enumerating nonlinear value")
                vals.append(v)
                extra.append(ne(p, v))
                if len(vals) > limit:
                    raise Unsupported("too many values for %s" % show(p)[:100])
        raise Fork([eq(p, v) for v in sorted(vals)])

    # =============================================================== memory
    def alloc(self, st, size, name=""):
        st.nobj += 1
        oid = (1 << 20) + st.nobj
        st.mem[oid] = Obj(size, name)
        return oid << OBJ_SHIFT

    def gaddr(self, name):
        a = self.globals.get(name)
        if a is None:
            if name in self.mod.globals:
                self.nglob += 1
                oid = self.nglob
                a = oid << OBJ_SHIFT
                self.globals[name] = a
                ty, init, const = self.mod.global_init(name)
                if init is None:
                    raise Unsupported("external global " + name)
                o = Obj(ty.size, name, ro=const)
                self.base_mem[oid] = o
                self._init(o, 0, ty, init)
            elif name in self.mod.fns or name in self.mod.decls:
                a = FN_BASE + (len(self.fnaddr) + 1) * 16
                self.fnaddr[name] = a
                self.addrfn[a] = name
                self.globals[name] = a
            else:
                raise Unsupported("global " + name)
        return a

    def _init(self, o, off, ty, v):
        if isinstance(v, bytes):
            o.cells[off] = (len(v), v)
            return
        if ty.k == "s":
            for e, t, of in zip(v, ty.el, ty.offs):
                self._init(o, off + of, t, e)
        elif ty.k == "a":
            if ty.size == 0:
                return
            if all(x is UNDEF for x in v):
                return
            if ty.el.k == "i" and all(isinstance(x, int) for x in v):
                b = ty.el.size
                o.cells[off] = (ty.size, b"".join((x & ((1 << 8 * b) - 1)).to_bytes(b, "little") for x in v))
                return
            for i, e in enumerate(v):
                self._init(o, off + i * ty.el.size, ty.el, e)
        elif v is UNDEF:
            pass
        else:
            if isinstance(v, GRef):
                v = self.gaddr(v.name) + v.off
            if isinstance(v, float):
                v = int.from_bytes(struct.pack("<d", v), "little")
            o.cells[off] = (ty.size, int(v))

    def getobj(self, st, addr, size, write=False):
        """-> (obj, offset) ; offset may be Poly"""
        if addr is UNDEF:
            raise End("ub", "undef pointer")
        c = self.const_of(st, addr)
        if c is not None:
            oid, off = c >> OBJ_SHIFT, c & ((1 << OBJ_SHIFT) - 1)
        else:
            lo, hi = self.iv(st, addr)
            if lo >> OBJ_SHIFT != hi >> OBJ_SHIFT:
                # maybe an offset that can step outside
                oid = addr.c >> OBJ_SHIFT
            else:
                oid = lo >> OBJ_SHIFT
            off = psub(addr, oid << OBJ_SHIFT)
        o = st.mem.get(oid)
        if o is None:
            o = self.base_mem.get(oid)
            if o is None:
                raise End("ub", "access through invalid pointer %s" % show(addr))
        if type(off) is Poly:
            if not self.must(st, between(off, 0, o.size - size)):
                f = between(off, 0, o.size - size)
                if self.possible(st, f):
                    raise Fork([f, f_not(f)])
                raise End("ub", "out-of-bounds access to %s" % o.name)
            c = self.const_of(st, off)
            if c is not None:
                off = c
        elif off + size > o.size:
            raise End("ub", "out-of-bounds access to %s (offset %d size %d of %d)" % (o.name, off, size, o.size))
        if write:
            if o.ro:
                raise End("ub", "write to constant")
            if type(off) is Poly:
                self.fork_values(st, off)
            if o.own is not st:
                n = Obj(o.size, o.name)
                n.cells = dict(o.cells)
                n.own = st
                st.mem[oid] = n
                o = n
        return o, off

    def cell_at(self, o, off):
        """cell covering byte off: (start, size, val) or None"""
        c = o.cells.get(off)
        if c is not None:
            return off, c[0], c[1]
        for s, (z, v) in o.cells.items():
            if s <= off < s + z:
                return s, z, v
        return None

    def extract(self, st, v, size, off, n):
        """n bytes at byte offset off of a little-endian cell value"""
        if isinstance(v, bytes):
            return int.from_bytes(v[off:off + n], "little")
        if v is UNDEF:
            return UNDEF
        if off == 0 and n == size:
            return v
        if isinstance(v, Flt):
            if v.kind != "bits":
                raise Unsupported("partial float")
            v = v.v
        if off:
            v = self.floordiv(st, self.U(st, v, 8 * size), 1 << (8 * off))
        if off + n < size:
            v = self.U(st, v, 8 * n)
        return v

    def load_bytes(self, st, o, off, n):
        """integer value of n bytes (or UNDEF)"""
        c = o.cells.get(off)
        if c is not None and c[0] == n and not isinstance(c[1], bytes):
            return c[1]
        got = 0
        res = 0
        defd = False
        while got < n:
            c = self.cell_at(o, off + got)
            if c is None or c[2] is UNDEF:
                if o.name == FORGOTTEN:
                    raise Unsupported("read of forgotten memory")
                # padding next to defined bytes: any value will do
                got += 1
                continue
            defd = True
            s, z, v = c
            inner = off + got - s
            take = min(z - inner, n - got)
            part = self.extract(st, v, z, inner, take)
            if got or take < n:
                if isinstance(part, Flt):
                    part = part.v
                part = self.U(st, part, 8 * take)
                res = padd(res, pmul(part, 1 << (8 * got)))
            else:
                res = part
            got += take
        return res if defd else UNDEF

    def store_bytes(self, st, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            for s in list(cells):
                z, old = cells[s]
                if s < off + n and off < s + z:
                    del cells[s]
                    if s < off:
                        cells[s] = (off - s, old[:off - s] if isinstance(old, bytes) else self.extract(st, old, z, 0, off - s))
                    if s + z > off + n:
                        k = off + n - s
                        cells[off + n] = (z - k, old[k:] if isinstance(old, bytes) else self.extract(st, old, z, k, z - k))
        cells[off] = (n, v)

    def load(self, st, ty, addr):
        if ty.k in ("s", "a"):
            if ty.k == "a":
                return [self.load(st, ty.el, padd(addr, i * ty.el.size)) for i in range(ty.n)]
            return [self.load(st, t, padd(addr, o)) for t, o in zip(ty.el, ty.offs)]
        o, off = self.getobj(st, addr, ty.size)
        if type(off) is Poly:
            v = self.table_load(st, o, off, ty.size)
        else:
            v = self.load_bytes(st, o, off, ty.size)
        if ty.k == "double":
            if isinstance(v, Flt) or v is UNDEF:
                return v
            if type(v) is not Poly:
                return struct.unpack("<d", (v & (1 << 64) - 1).to_bytes(8, "little"))[0]
            return Flt("bits", v)
        if isinstance(v, Flt):
            v = self.fbits(st, v)
        if isinstance(v, float):
            v = int.from_bytes(struct.pack("<d", v), "little")
        if ty.k == "i" and ty.n == 1 and v is not UNDEF:
            return self.toi1(st, v)
        return v

    def fbits(self, st, v):
        if v.kind == "bits":
            return v.v
        from . import fp
        return fp.bits_atom(self, st, v)

    def toi1(self, st, v):
        if type(v) is tuple or type(v) is bool:
            return v
        if type(v) is not Poly:
            return bool(v & 1)
        lo, hi = self.iv(st, v)
        if not (lo >= 0 and hi <= 1):
            v = self.U(st, v, 1)
        return self.simp(st, eq(v, 1))

    def store(self, st, ty, v, addr):
        if ty.k in ("s", "a"):
            if ty.k == "a":
                for i in range(ty.n):
                    self.store(st, ty.el, v[i], padd(addr, i * ty.el.size))
            else:
                for x, t, o in zip(v, ty.el, ty.offs):
                    self.store(st, t, x, padd(addr, o))
            return
        o, off = self.getobj(st, addr, ty.size, write=True)
        if type(off) is Poly:
            raise Unsupported("symbolic store offset")
        if type(v) is tuple or type(v) is bool:
            v = self.b2i(st, v)
        self.store_bytes(st, o, off, ty.size, v)

    def table_load(self, st, o, off, size):
        """load at a symbolic offset"""
        g = 0
        for k in off.t.values():
            g = gcd(g, k)
        lo, hi = self.iv(st, off)
        lo = max(lo, 0)
        hi = min(hi, o.size - size)
        start = off.c % g
        first = lo + ((start - lo) % g)
        idx = list(range(first, hi + 1, g))
        # index poly: off = start + g*ix
        ix = Poly((off.c - start) // g, {m: k // g for m, k in off.t.items()})
        if not idx:
            raise Infeasible()
        if len(idx) > 4096:
            raise Unsupported("symbolic load over %d entries" % len(idx))
        vals = []
        for i in idx:
            v = self.load_bytes(st, o, i, size)
            if v is UNDEF or type(v) is Poly or not isinstance(v, int):
                self.fork_values(st, ix)
            vals.append(v)
        i0 = (first - start) // g
        n = len(idx)
        if n == 1:
            return vals[0]
        # affine
        d = vals[1] - vals[0]
        if all(vals[j] == vals[0] + d * j for j in range(n)) and not (n <= 3 and d and any(self.atoms.info[a][0] == "ctlz" for m in ix.t for a in m)):
            return padd(vals[0], pmul(d, psub(ix, i0)))
        # decimal digits of the index
        if size == 1 and i0 == 0:
            if all(vals[j] == 48 + j // 10 for j in range(n)):
                return padd(48, self.floordiv(st, ix, 10))
            if all(vals[j] == 48 + j % 10 for j in range(n)):
                return padd(48, psub(ix, pmul(10, self.floordiv(st, ix, 10))))
        if size == 2 and i0 == 0 and all(vals[j] == (48 + j // 10) + 256 * (48 + j % 10) for j in range(n)):
            t = self.floordiv(st, ix, 10)
            return padd(48 + 256 * 48, padd(t, pmul(256, psub(ix, pmul(10, t)))))
        # group equal consecutive values into ranges and fork
        groups = []
        for j, v in enumerate(vals):
            if groups and groups[-1][2] == v:
                groups[-1][1] = i0 + j
            else:
                groups.append([i0 + j, i0 + j, v])
        if len(groups) == 1:
            return groups[0][2]
        byval = {}
        for a, b, v in groups:
            byval.setdefault(v, []).append((a, b))
        sel = []
        for v, rs in byval.items():
            f = f_or(*[between(ix, a, b) for a, b in rs])
            f = self.simp(st, f)
            if f is True:
                return v
            if f is not False:
                key = ("tl", ix, o.name, size, v)
                if st.defs.get(key):
                    return v
                sel.append((key, f))
        self._mark = sel
        raise ForkMark([(f, k) for k, f in sel])

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        so, soff = self.getobj(st, src, n)
        if type(soff) is Poly:
            v = self.table_load(st, so, soff, n)
            do, doff = self.getobj(st, dst, n, write=True)
            self.store_bytes(st, do, doff, n, v)
            return
        parts = []
        got = 0
        while got < n:
            c = self.cell_at(so, soff + got)
            if c is None:
                parts.append((got, 1, UNDEF))
                got += 1
                continue
            s, z, v = c
            inner = soff + got - s
            take = min(z - inner, n - got)
            if isinstance(v, bytes):
                parts.append((got, take, v[inner:inner + take]))
            else:
                parts.append((got, take, self.extract(st, v, z, inner, take)))
            got += take
        do, doff = self.getobj(st, dst, n, write=True)
        for g_, z, v in parts:
            if v is UNDEF:
                self.store_bytes(st, do, doff + g_, z, UNDEF)
                del do.cells[doff + g_]
            else:
                self.store_bytes(st, do, doff + g_, z, v)

    def read_mem(self, st, addr, n):
        o, off = self.getobj(st, addr, n)
        return [self.load_bytes(st, o, off + i, 1) for i in range(n)]

    # =============================================================== execution
    def val(self, st, fr, op):
        k, v = op
        if k == "r":
            return fr.regs[v]
        if isinstance(v, GRef):
            return self.gaddr(v.name) + v.off
        if type(v) is list:
            return [self.val(st, fr, ("c", x)) for x in v]
        return v

    def boolv(self, st, v):
        if type(v) is bool or type(v) is tuple:
            return v
        if v is UNDEF:
            raise End("ub", "branch on undef")
        if type(v) is int:
            return bool(v & 1)
        return self.toi1(st, v)

    def start(self, fn, args, st=None):
        st = st or State()
        fr = Frame(fn)
        for (nm, t), v in zip(fn.params, args):
            fr.regs[nm] = v
        st.frames = [fr]
        self.encoded[fn.demangled] = fn.ncode
        return st

    def jump(self, st, fr, target):
        prev = fr.blk
        blk = fr.fn.blocks[target]
        vals = []
        i = 0
        while blk[i][0] == "phi":
            ins = blk[i]
            vals.append((ins[1], self.val(st, fr, ins[3][prev])))
            i += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = prev
        fr.blk = target
        fr.ip = i
        if self.loop_hook is not None:
            self.loop_hook(self, st, fr, target)

    def explore(self, st, on_end):
        """depth-first exploration; on_end(state, kind, info) at every path end"""
        work = [st]
        while work:
            st = work.pop()
            if self.paths >= self.max_paths:
                on_end(st, "limit", "path limit")
                continue
            if self.deadline and time.time() > self.deadline:
                on_end(st, "limit", "time limit")
                continue
            try:
                kids = self.run(st)
            except End as e:
                self.paths += 1
                on_end(st, e.kind, e.info)
                continue
            except Infeasible:
                continue
            except Unsupported as e:
                self.paths += 1
                on_end(st, "unsupported", str(e))
                continue
            for k in reversed(kids):
                work.append(k)

    def make_kids(self, st, alts):
        kids = []
        self.forks += 1
        fr = st.frames[-1]
        lk = fr.fn.demangled
        self.fork_log[lk] = self.fork_log.get(lk, 0) + 1
        live = []
        for a in alts:
            f0, mark = a if (type(a) is tuple and len(a) == 2 and type(a[1]) is tuple and a[1] and a[1][0] == "tl") else (a, None)
            f = self.simp(st, f0)
            if f is False:
                continue
            live.append((f, mark, f0))
        for i, (f, mark, f0) in enumerate(live):
            if f is not True and len(live) > 1 and not self.possible(st, f):
                continue
            k = st.fork()
            try:
                self.assume(k, f)
                self.learn(k, f0)
            except Infeasible:
                continue
            if mark:
                k.defs[mark] = True
            kids.append(k)
        return kids

    def run(self, st):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            st.steps += 1
            self.steps += 1
            if st.steps > self.max_steps:
                raise End("limit", "step limit")
            if (self.steps & 255) == 0 and self.deadline and time.time() > self.deadline:
                raise End("limit", "time limit")
            try:
                r = self.step(st, fr, ins)
            except ForkMark as e:
                kids = self.make_kids(st, e.alts)
                return kids
            except Fork as e:
                kids = self.make_kids(st, e.alts)
                return kids
            except End as e:
                if e.kind == "ub" and fr.blk is not None:
                    e.info = "%s @ %s: %s" % (e.info, fr.fn.demangled, repr(fr.fn.blocks[fr.blk][fr.ip])[:160])
                raise
            except Unsupported as e:
                if not getattr(e, "loc", None):
                    e.loc = (fr.fn.demangled, ins)
                    e.args = (str(e) + " @ " + fr.fn.demangled + " " + repr(ins)[:200],)
                raise
            if r is not None:
                return r

    def branch(self, st, fr, f, a, b):
        """two-way branch; returns list of states when forking"""
        f = self.simp(st, f)
        if f is True:
            self.jump(st, fr, a)
            return None
        if f is False:
            self.jump(st, fr, b)
            return None
        nf = f_not(f)
        if not self.possible(st, f):
            self.learn(st, nf)
            self.jump(st, fr, b)
            return None
        if not self.possible(st, nf):
            self.learn(st, f)
            self.jump(st, fr, a)
            return None
        self.forks += 1
        lk = fr.fn.demangled
        self.fork_log[lk] = self.fork_log.get(lk, 0) + 1
        kids = []
        for g, t in ((f, a), (nf, b)):
            k = st.fork()
            try:
                self.assume(k, g)
                self.jump(k, k.frames[-1], t)
            except Infeasible:
                continue
            kids.append(k)
        return kids

    def step(self, st, fr, ins):
        op = ins[0]
        val = self.val
        if op == "call":
            return self.call(st, fr, ins)
        if op == "br":
            return self.branch(st, fr, self.boolv(st, val(st, fr, ins[2])), ins[3], ins[4])
        if op == "jmp":
            seen = set()
            t = ins[2]
            while fr.fn.blocks[t][0][0] == "jmp":
                if t in seen:
                    raise End("panic", "infinite loop in " + fr.fn.demangled)
                seen.add(t)
                t = fr.fn.blocks[t][0][2]
            self.jump(st, fr, ins[2])
            return None
        if op == "switch":
            return self.switch(st, fr, ins)
        if op == "ret":
            return self.ret(st, fr, None if ins[3] is None else val(st, fr, ins[3]))
        if op == "unreachable":
            raise End("ub", "unreachable executed in " + fr.fn.demangled)
        if op == "store":
            self.store(st, ins[2], val(st, fr, ins[3]), val(st, fr, ins[4]))
            fr.ip += 1
            return None
        r = self.compute(st, fr, ins)
        if ins[1] is not None:
            fr.regs[ins[1]] = r
        fr.ip += 1
        return None

    def switch(self, st, fr, ins):
        _, _, ty, vop, default, cases = ins
        v = self.val(st, fr, vop)
        w = ty.n
        if type(v) is tuple or type(v) is bool:
            v = self.b2i(st, v)
        v = self.U(st, v, w)
        M = 1 << w
        alts = []
        rest = []
        for cv, lab in cases:
            f = self.simp(st, eq(v, (int(cv)) % M))
            if f is True:
                self.jump(st, fr, lab)
                return None
            if f is False:
                continue
            alts.append((f, lab))
            rest.append(f_not(f))
        alts.append((f_and(*rest), default))
        # group by label
        live = []
        for f, lab in alts:
            if len(alts) == 1 or self.possible(st, f):
                live.append((f, lab))
        if not live:
            raise Infeasible()
        if len(live) == 1:
            self.learn(st, live[0][0])
            self.jump(st, fr, live[0][1])
            return None
        self.forks += 1
        kids = []
        for f, lab in live:
            k = st.fork()
            try:
                self.assume(k, f)
                self.jump(k, k.frames[-1], lab)
            except Infeasible:
                continue
            kids.append(k)
        return kids

    def ret(self, st, fr, v):
        st.frames.pop()
        if fr.hook is not None:
            fr.hook(st, v)
        if not st.frames:
            raise End("ret", v)
        up = st.frames[-1]
        if fr.dest is not None:
            up.regs[fr.dest] = v
        up.ip += 1
        return None

    def finish_call(self, st, fr, dest, v):
        """return value of a modelled call"""
        if dest is not None:
            fr.regs[dest] = v
        fr.ip += 1

    def call(self, st, fr, ins):
        _, dest, rt, callee, args = ins
        if callee[0] == "c":
            name = callee[1].name
        else:
            a = self.const_of(st, fr.regs[callee[1]])
            name = self.addrfn.get(a)
            if name is None:
                raise End("ub", "call through bad pointer")
        fn = self.mod.fns.get(name)
        key = name
        m = self.modelcache.get(key, 0)
        if m == 0:
            m = self.find_model(name, fn)
            self.modelcache[key] = m
        if m is not None:
            argv = [self.val(st, fr, a) if a[1] is not None else None for t, a in args]
            if m not in self.contract_fns:
                return m(self, st, fr, dest, rt, argv, [t for t, _ in args], fn)
            v = m(self, st, fr, dest, rt, argv, [t for t, _ in args], fn)
            if v is not INLINE:
                self.finish_call(st, fr, dest, v)
                return None
        if fn is None:
            dem, nr = self.mod.decls.get(name, (name, False))
            if nr:
                raise End("panic", dem)
            raise Unsupported("external function " + dem)
        fn = self.mod.fn(name)
        argv = [self.val(st, fr, a) for t, a in args]
        nf = Frame(fn)
        for (nm, t), v in zip(fn.params, argv):
            nf.regs[nm] = v
        nf.dest = dest
        st.frames.append(nf)
        if len(st.frames) > 200:
            raise End("limit", "call depth")
        if fn.demangled not in self.encoded:
            self.encoded[fn.demangled] = fn.ncode
        return None

    def find_model(self, name, fn):
        dem = fn.demangled if fn is not None else self.mod.decls.get(name, (name, False))[0]
        for pat, h in self.contracts:
            if fn is not None and pat.search(dem):
                self.contract_fns.add(h)
                return h
        for pat, h, only_decl in self.models:
            if only_decl and fn is not None:
                continue
            if pat.search(dem):
                return h
        return None

    # =============================================================== instructions
    def compute(self, st, fr, ins):
        op = ins[0]
        val = self.val
        if op == "load":
            return self.load(st, ins[2], val(st, fr, ins[3]))
        if op == "gep":
            b = val(st, fr, ins[2])
            if b is UNDEF:
                return UNDEF
            b = padd(b, ins[3])
            for sc, v, w in ins[4]:
                x = val(st, fr, v)
                if type(x) is tuple or type(x) is bool:
                    raise Unsupported("gep i1")
                b = padd(b, pmul(sc, self.S(st, x, w)))
            return b
        if op == "alloca":
            # an alloca re-executed (loops) makes a new object; entry-block allocas run once
            return self.alloc(st, ins[2].size, "local " + ins[1])
        if op == "icmp":
            return self.icmp(st, ins[2], ins[3], val(st, fr, ins[4]), val(st, fr, ins[5]))
        if op == "select":
            c = self.simp(st, self.boolv(st, val(st, fr, ins[2])))
            a, b = val(st, fr, ins[4]), val(st, fr, ins[5])
            return self.select(st, c, ins[3], a, b)
        if op == "extractvalue":
            v = val(st, fr, ins[2])
            for i in ins[3]:
                v = v[i]
            return v
        if op == "insertvalue":
            agg = val(st, fr, ins[2])
            return self.insert(agg, val(st, fr, ins[3]), ins[4])
        if op == "freeze":
            v = val(st, fr, ins[3])
            return v
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
            return self.cast(st, op, ins[2], val(st, fr, ins[3]), ins[4])
        if op in ("uitofp", "sitofp", "fptoui", "fptosi", "fadd", "fsub", "fmul", "fdiv", "fneg", "fcmp", "fpext", "fptrunc"):
            from . import fp
            return fp.compute(self, st, ins, [val(st, fr, x) for x in ins[2:] if type(x) is tuple and len(x) == 2 and x[0] in ("r", "c")])
        if op == "phi":
            raise Unsupported("phi out of place")
        if op == "nop":
            return None
        if op == "asm":
            raise Unsupported("inline asm")
        return self.binop(st, op, ins[2], val(st, fr, ins[3]), val(st, fr, ins[4]), ins[5])

    def insert(self, agg, v, idx):
        agg = list(agg)
        if len(idx) == 1:
            agg[idx[0]] = v
        else:
            agg[idx[0]] = self.insert(agg[idx[0]], v, idx[1:])
        return agg

    def select(self, st, c, ty, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if ty.k == "i" and ty.n == 1:
            a, b = self.boolv(st, a), self.boolv(st, b)
            return f_or(f_and(c, a), f_and(f_not(c), b))
        if a is b or (type(a) is type(b) and a == b):
            return a
        if not self.possible(st, c):
            self.learn(st, f_not(c))
            return b
        if not self.possible(st, f_not(c)):
            self.learn(st, c)
            return a
        raise Fork([c, f_not(c)])

    def cast(self, st, op, t1, v, t2):
        if v is UNDEF:
            return UNDEF
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op == "bitcast":
            if t1.k == "double" and t2.k == "i":
                if isinstance(v, float):
                    return int.from_bytes(struct.pack("<d", v), "little")
                return self.fbits(st, v)
            if t1.k == "i" and t2.k == "double":
                if type(v) is not Poly:
                    return struct.unpack("<d", (v & ((1 << 64) - 1)).to_bytes(8, "little"))[0]
                return Flt("bits", self.U(st, v, 64))
            return v
        if t1.k == "v" or t2.k == "v":
            raise Unsupported("vector cast")
        if op == "trunc":
            if t2.n == 1:
                return self.toi1(st, v)
            return v
        if t1.n == 1:
            b = self.b2i(st, v)
            return b if op == "zext" else pscale(b, -1)
        return self.U(st, v, t1.n) if op == "zext" else self.S(st, v, t1.n)

    def icmp(self, st, cond, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise End("ub", "comparison of undef")
        if ty.k == "ptr":
            w = 64
        else:
            w = ty.n
        if w == 1:
            a, b = self.boolv(st, a), self.boolv(st, b)
            if cond == "eq":
                return self.simp(st, f_iff(a, b))
            if cond == "ne":
                return self.simp(st, f_not(f_iff(a, b)))
            a, b = self.b2i(st, a), self.b2i(st, b)
            if cond[0] == "s":
                a, b = pscale(a, -1), pscale(b, -1)
        elif cond in ("eq", "ne"):
            # choose the view that needs no extra atoms
            sa = self.fits(st, a, w, True) and self.fits(st, b, w, True)
            if sa:
                a, b = self.S(st, a, w), self.S(st, b, w)
            else:
                a, b = self.U(st, a, w), self.U(st, b, w)
            f = eq(a, b)
            return self.simp(st, f if cond == "eq" else f_not(f))
        elif cond[0] == "s":
            a, b = self.S(st, a, w), self.S(st, b, w)
        else:
            a, b = self.U(st, a, w), self.U(st, b, w)
        c = cond[1:]
        f = self.simp(st, {"gt": gt, "ge": ge, "lt": lt, "le": le}[c](a, b))
        if cond in ("ult", "ugt") and w >= 32 and f is not True and f is not False and ("flag", f) not in st.defs:
            # as a borrow: a < b iff a - b < 0
            st.defs[("flag", f)] = (psub(a, b) if c == "lt" else psub(b, a), w, -1)
        return f

    def fits(self, st, p, w, signed):
        if type(p) is not Poly:
            return True
        lo, hi = self.iv(st, p)
        L = -(1 << w - 1) if signed else 0
        return lo >= L and hi < L + (1 << w)

    def low_zero_bits(self, p):
        """k such that p is a multiple of 2^k"""
        if type(p) is not Poly:
            return 10 ** 6 if p == 0 else (p & -p).bit_length() - 1
        g = abs(p.c)
        for k in p.t.values():
            g = gcd(g, k)
        return (g & -g).bit_length() - 1

    def sdivrem(self, st, w, a, b):
        a, b = self.S(st, a, w), self.S(st, b, w)
        if type(b) is Poly and self.const_of(st, b) is not None:
            b = self.const_of(st, b)
        if self.possible(st, eq(b, 0)):
            raise End("ub", "division by zero")
        sb = self.sign(st, b)
        sa = self.sign(st, a)
        na = pscale(a, -1) if sa < 0 else a
        nb = pscale(b, -1) if sb < 0 else b
        q = self.floordiv(st, na, nb)
        if sa * sb < 0 or (sa == 0 and sb < 0):
            q = pscale(q, -1)
        r = psub(a, pmul(q, b))
        return q, r

    def sign(self, st, a):
        """1 for >= 0, -1 for < 0; forks if undetermined"""
        if type(a) is not Poly:
            return 1 if a >= 0 else -1
        lo, hi = self.iv(st, a)
        if lo >= 0:
            return 1
        if hi < 0:
            return -1
        if not self.possible(st, ge(-1, a)):
            self.learn(st, ge(a, 0))
            return 1
        if not self.possible(st, ge(a, 0)):
            self.learn(st, ge(-1, a))
            return -1
        raise Fork([ge(a, 0), ge(-1, a)])

    def binop(self, st, op, ty, a, b, flags):
        if a is UNDEF and b is UNDEF:
            return UNDEF
        # struct padding packed into a wider integer: undef may take any value
        if a is UNDEF:
            a = 0
        if b is UNDEF:
            b = 0
        w = ty.n
        if w == 1:
            a, b = self.boolv(st, a), self.boolv(st, b)
            if op == "and":
                return self.simp(st, f_and(a, b))
            if op == "or":
                return self.simp(st, f_or(a, b))
            if op == "xor":
                if a is True:
                    return f_not(b)
                if b is True:
                    return f_not(a)
                return self.simp(st, f_not(f_iff(a, b)))
            raise Unsupported("i1 " + op)
        if type(a) is tuple or type(b) is tuple:
            raise Unsupported("formula operand " + op)
        if op == "add":
            return self.lazy(st, padd(a, b), w)
        if op == "sub":
            return self.lazy(st, psub(a, b), w)
        if op == "mul":
            if type(a) is Poly and type(b) is Poly:
                # multiply narrow representatives
                a, b = self.narrow(st, a, w), self.narrow(st, b, w)
            return self.lazy(st, self.product(st, a, b), w)
        if op in ("udiv", "urem"):
            a, b = self.U(st, a, w), self.U(st, b, w)
            if type(b) is Poly:
                c = self.const_of(st, b)
                b = b if c is None else c
            if self.possible(st, eq(b, 0)):
                raise End("ub", "division by zero")
            if type(b) is Poly and self.iv(st, b)[0] < 1:
                self.learn(st, ge(b, 1))
            q = self.floordiv(st, a, b)
            return q if op == "udiv" else psub(a, pmul(q, b))
        if op in ("sdiv", "srem"):
            q, r = self.sdivrem(st, w, a, b)
            return q if op == "sdiv" else r
        if op in ("shl", "lshr", "ashr"):
            s = self.const_of(st, b)
            if s is None:
                return self.shift_sym(st, op, w, a, b)
            s %= 1 << w
            if s >= w:
                return UNDEF
            if op == "shl":
                return self.lazy(st, pmul(a, 1 << s), w)
            x = self.U(st, a, w) if op == "lshr" else self.S(st, a, w)
            return self.floordiv(st, x, 1 << s)
        if op == "and":
            return self.and_(st, a, b, w)
        if op == "or":
            return self.or_(st, a, b, w)
        if op == "xor":
            return self.xor_(st, a, b, w)
        raise Unsupported(op)

    def narrow(self, st, p, w):
        if type(p) is not Poly:
            return p
        if self.fits(st, p, w, True) or self.fits(st, p, w, False):
            return p
        return self.U(st, p, w)

    def lazy(self, st, p, w):
        """keep the representative unless it is getting large"""
        if type(p) is not Poly:
            return p & ((1 << w) - 1)
        return p

    def shift_sym(self, st, op, w, a, b):
        b = self.U(st, b, w)
        if self.const_of(st, a) == 0:
            return 0
        self.fork_values(st, b)

    def and_(self, st, a, b, w):
        if type(a) is not Poly:
            a, b = b, a
        if type(a) is not Poly:
            return a & b & ((1 << w) - 1)
        if type(b) is not Poly:
            m = b & ((1 << w) - 1)
            if m == 0:
                return 0
            if m == (1 << w) - 1:
                return a
            # contiguous runs of ones
            runs = []
            i = 0
            while i < w:
                if m >> i & 1:
                    j = i
                    while j < w and m >> j & 1:
                        j += 1
                    runs.append((i, j))
                    i = j
                else:
                    i += 1
            if len(runs) <= 4:
                res = 0
                for i, j in runs:
                    x = self.U(st, a, j)
                    if i:
                        x = pmul(self.floordiv(st, x, 1 << i), 1 << i)
                    res = padd(res, x)
                return res
            # a sparse mask: fork on the value when it is small
            x = self.U(st, a, w)
            lo, hi = self.iv(st, x)
            if hi - lo < 300:
                self.fork_values(st, x)
            res = 0
            for i, j in runs:
                x = self.U(st, a, j)
                if i:
                    x = pmul(self.floordiv(st, x, 1 << i), 1 << i)
                res = padd(res, x)
            return res
        if a == b:
            return a
        for x, y in ((a, b), (b, a)):
            # sign masks
            lo, hi = self.iv(st, x)
            if lo >= -1 and hi <= 0:
                f = eq(x, -1)
                if self.must(st, f):
                    return y
                if self.must(st, f_not(f)):
                    return 0
                raise Fork([f, f_not(f)])
        for x, y in ((a, b), (b, a)):
            lo, hi = self.iv(st, x)
            if hi - lo < 70:
                self.fork_values(st, x)
        raise Unsupported("symbolic and")

    def or_(self, st, a, b, w):
        if type(a) is not Poly and type(b) is not Poly:
            return (a | b) & ((1 << w) - 1)
        if a == b:
            return a
        for x, y in ((a, b), (b, a)):
            if type(x) is not Poly:
                x &= (1 << w) - 1
                if x == 0:
                    return y
                if x == (1 << w) - 1:
                    return x
            k = self.low_zero_bits(x)
            if k:
                lo, hi = self.iv(st, y)
                if lo >= 0 and hi < 1 << min(k, w):
                    return self.lazy(st, padd(x, y), w)
        for x, y in ((a, b), (b, a)):
            k = min(self.low_zero_bits(x), w)
            if k and k < 10 ** 5:
                u = self.U(st, y, w)
                if self.must(st, between(u, 0, (1 << k) - 1)):
                    return self.lazy(st, padd(x, u), w)
        # a | b = a + b - (a & b)
        r = self.and_(st, a, b, w)
        return self.lazy(st, psub(padd(a, b), r), w)

    def xor_(self, st, a, b, w):
        if type(a) is not Poly:
            a, b = b, a
        if type(a) is not Poly:
            return (a ^ b) & ((1 << w) - 1)
        if type(b) is not Poly:
            m = b & ((1 << w) - 1)
            if m == 0:
                return a
            if m == (1 << w) - 1:
                return psub(-1, a)
            if m == 1 << (w - 1):
                return padd(a, m)
        if a == b:
            return 0
        # a ^ b = a + b - 2 (a & b)
        r = self.and_(st, a, b, w)
        return self.lazy(st, psub(padd(a, b), pmul(2, r)), w)


class ForkMark(Exception):
    def __init__(self, alts):
        self.alts = alts
