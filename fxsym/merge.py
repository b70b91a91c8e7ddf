"""Merging of paths at loop heads, for loops which scale one number by fives and twos (conversion from f64).

At a loop head the live wide values v of the function are related to the input number X by K X (1 - (|a|+|b|) 2^-120) <= v <= K X with
K = 5^a / 2^b.  Where the solver shows this, v becomes a fresh variable known by nothing else, what the path learnt since the first head
is forgotten, and paths which agree afterwards are merged.  This only weakens what later steps may assume."""
from . import sym
from .poly import *

EPS = 120


def uses(x, out):
    if type(x) is tuple:
        if len(x) == 2 and x[0] == "r":
            out.add(x[1])
            return
        for y in x:
            uses(y, out)
    elif type(x) is list:
        for y in x:
            uses(y, out)


def targets(blk):
    t = blk[-1]
    if t[0] == "jmp":
        return [t[2]]
    if t[0] == "br":
        return [t[3], t[4]]
    if t[0] == "switch":
        return [t[4]] + [x for _, x in t[5]]
    return []


class Info:
    """loop heads, and what is live at them (registers; '*x' for the contents of an alloca used by plain loads and stores only)"""

    def __init__(self, fn):
        bl = fn.blocks
        self.heads = set()
        state = {}
        stack = [(fn.entry, iter(targets(bl[fn.entry])))]
        state[fn.entry] = 1
        while stack:
            b, it = stack[-1]
            for t in it:
                if state.get(t) == 1:
                    self.heads.add(t)
                elif t not in state:
                    state[t] = 1
                    stack.append((t, iter(targets(bl[t]))))
                    break
            else:
                state[b] = 2
                stack.pop()
        self.slots = {ins[1] for b in bl.values() for ins in b if ins[0] == "alloca"}
        # an alloca that is never loaded from directly counts as dead (its contents are forgotten; a later read ends the path as unsupported)
        self.slots &= {ins[3][1] for b in bl.values() for ins in b if ins[0] == "load" and ins[3][0] == "r"}
        live = {b: set() for b in bl}  # after the phis
        self.live = live
        change = True
        while change:
            change = False
            for b, code in bl.items():
                L = set()
                for t in targets(code):
                    L |= live[t]
                    for ins in bl[t]:
                        if ins[0] != "phi":
                            break
                        L.discard(ins[1])
                    for ins in bl[t]:
                        if ins[0] != "phi":
                            break
                        uses(ins[3][b], L)
                for ins in reversed(code):
                    if ins[0] == "phi":
                        break
                    L.discard(ins[1])
                    if ins[0] == "load" and ins[3][0] == "r" and ins[3][1] in self.slots:
                        L.add("*" + ins[3][1])
                        L.add(ins[3][1])
                        continue
                    if ins[0] == "store" and ins[4][0] == "r" and ins[4][1] in self.slots:
                        L.discard("*" + ins[4][1])
                    elif ins[0] == "call" and (ins[3][0] == "c" and "llvm.lifetime" in getattr(ins[3][1], "name", "")):
                        continue
                    u = set()
                    uses(ins[2:] if ins[0] != "store" else ins[3:], u)
                    L |= u
                    L |= {"*" + x for x in u & self.slots if not (ins[0] == "store" and ins[4] == ("r", x))}
                if L != live[b]:
                    live[b] = L
                    change = True


class Base:
    def __init__(self, st):
        self.pc, self.ab, self.facts, self.defs = list(st.pc), dict(st.ab), dict(st.facts), dict(st.defs)
        self.monos, self.prods = set(st.monos), st.prods
        self.mem = {k: dict(o.cells) for k, o in st.mem.items()}


def evaluator(members):
    """the merged value for concrete inputs: that of the member path they belong to"""
    def f(ev):
        for pc, v in members:
            if all(feval(g, ev) for g in pc):
                return peval(v, ev)
        raise RuntimeError("not on a merged path")
    return ("fn", f)


class Merger:
    def __init__(self, pattern, X, lo, hi):
        self.pat, self.X, self.lo, self.hi = pattern, X, lo, hi  # lo <= X <= hi
        self.infos = {}
        self.seen = {}
        self.known = {}  # atom -> (a, b)
        self.members = {}
        self.count = 0

    def relation(self, v, a, b):
        x = pscale(self.X, 5 ** max(a, 0) << max(-b, 0))
        y = pscale(v, 5 ** max(-a, 0) << max(b, 0))
        d = psub(x, y)
        return f_and(ge(d, 0), le(pscale(d, 1 << EPS), pscale(x, abs(a) + abs(b))))

    def candidates(self, eng, st, v):
        for m in v.t:
            for at in m:
                todo, done = [at], set()
                while todo:
                    t = todo.pop()
                    if t in self.known:
                        a, b = self.known[t]
                        return [(a + 1, b), (a, b + 1), (a, b - 1), (a - 1, b), (a, b), (a + 2, b), (a, b + 2), (a + 1, b + 1), (a, b - 2), (a - 1, b - 1)]
                    if t in done:
                        continue
                    done.add(t)
                    i = eng.atoms.info[t]
                    if i[0] == "div":
                        todo += [z for p in i[1:3] if type(p) is Poly for mm in p.t for z in mm]
        lo, hi = eng.iv(st, v)
        top = eng.iv(st, self.X)[1]
        out = []
        for b in (0, 1, 2, 3):
            for a in range(0, 60):
                k = 5 ** a
                if abs((hi << b) - k * top) << 30 <= k * top:
                    out.append((a, b))
        return out

    def relate(self, eng, st, v):
        lo, hi = eng.iv(st, v)
        for a, b in self.candidates(eng, st, v):
            k, d = 5 ** max(a, 0) << max(-b, 0), 5 ** max(-a, 0) << max(b, 0)
            if hi * d << 30 < k * self.lo * ((1 << 30) - 1) or lo * d << 30 > k * self.hi * ((1 << 30) + 1):
                continue
            ms, eng.feas_ms = eng.feas_ms, 3000
            try:
                if eng.must(st, self.relation(v, a, b)):
                    return a, b
            finally:
                eng.feas_ms = ms
        return None

    def __call__(self, eng, st, fr, target):
        nm = fr.fn.name
        info = self.infos.get(nm)
        if info is None:
            if not self.pat.search(fr.fn.demangled):
                self.infos[nm] = False
                return
            info = self.infos[nm] = Info(fr.fn)
        if info is False or target not in info.heads:
            return
        live = info.live[target]
        base = st.notes.get("mbase")
        if base is None:
            base = st.notes["mbase"] = Base(st)
            st.notes["mregs"] = dict(fr.regs)
        bregs = st.notes["mregs"]
        regs = {}
        new = []
        for k, v in fr.regs.items():
            if k not in live and k not in info.slots:
                if k in bregs and bregs[k] == v and type(v) is int:
                    regs[k] = v  # addresses
                continue
            regs[k] = v
            if type(v) is Poly and bregs.get(k) != v and k in live:
                new.append((k, v, None))
        mems = {}
        for k in info.slots:
            ad = fr.regs.get(k)
            if type(ad) is not int or "*" + k not in live:
                continue
            oid = ad >> sym.OBJ_SHIFT
            mems[oid] = True
            for off, c in st.mem[oid].cells.items():
                if type(c[1]) is Poly and base.mem.get(oid, {}).get(off) != c:
                    new.append((k, c[1], (ad, off, c[0])))
        out = []
        for k, v, where in new:
            v = eng.U(st, v, 8 * where[2] if where else 128)
            r = self.relate(eng, st, v)
            if r is None:
                return
            out.append((k, v, where, r))
        pc = list(st.pc)
        st.pc, st.ab, st.facts, st.defs = list(base.pc), dict(base.ab), dict(base.facts), dict(base.defs)
        st.monos, st.prods = set(base.monos), base.prods
        for oid in list(st.mem):
            if oid in mems:
                continue
            if oid not in base.mem:
                del st.mem[oid]
            elif st.mem[oid].cells != base.mem[oid]:
                o, _ = eng.getobj(st, oid << sym.OBJ_SHIFT, 0, write=True)
                o.cells.clear()
                o.name = sym.FORGOTTEN
        fr.regs = regs
        for k, v, where, (a, b) in out:
            key = ("merged", nm, target, k, where and where[1], a, b)
            ms = self.members.setdefault(key, [])
            ms.append((pc, v))
            d = 5 ** max(-a, 0) << max(b, 0)
            kk = 5 ** max(a, 0) << max(-b, 0)
            lo = kk * self.lo * ((1 << EPS) - abs(a) - abs(b)) // (d << EPS)
            hi = kk * self.hi // d
            at = eng.fresh(st, key, "B%d_%d" % (a, b), max(lo, 0), min(hi, (1 << 8 * (where[2] if where else 16)) - 1), evaluator(ms))
            self.known[at] = (a, b)
            p = atom_poly(at)
            f = self.relation(p, a, b)
            eng.assume(st, f)
            eng.learn(st, f)
            if where:
                o, off = eng.getobj(st, where[0] + where[1], where[2], write=True)
                eng.store_bytes(st, o, off, where[2], p)
            else:
                fr.regs[k] = p
        sig = (nm, target, fr.regs, st.pc, {k: o.cells for k, o in st.mem.items()}, [(f.fn.name, f.regs, f.blk, f.ip) for f in st.frames if f is not fr])
        key = (nm, target, tuple(sorted((k, v) for k, v in fr.regs.items() if type(v) is int)), tuple(r for _, _, _, r in out))
        for s in self.seen.setdefault(key, []):
            if s == sig:
                self.count += 1
                raise sym.Infeasible()
        self.seen[key].append((nm, target, dict(fr.regs), list(st.pc), {k: dict(o.cells) for k, o in st.mem.items()},
                               [(f.fn.name, dict(f.regs), f.blk, f.ip) for f in st.frames if f is not fr]))
