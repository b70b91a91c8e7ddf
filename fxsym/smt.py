"""Solver layer: path constraints are synchronised with one incremental z3 instance; monomials are opaque
in the linear tier and real products in the nonlinear tier; cvc5 is the second opinion."""
import subprocess, time, os, tempfile, z3

from .poly import *


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.nl_queries = 0
        self.cvc5_queries = 0
        self.slowest = 0.0


class Smt:
    def __init__(self, timeout_ms=3000):
        self.s = z3.Solver()
        self.timeout = timeout_ms
        self.s.set("timeout", timeout_ms)
        self.stack = []  # chunks (lists of formulas)
        self.fc = {}
        self.vars = {}
        self.monos = {}
        self.stats = Stats()
        self.real_atoms = REAL_ATOMS

    # ---- translation
    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            v = self.vars[a] = (z3.Real if a in REAL_ATOMS else z3.Int)("x%d" % a)
        return v

    def mono(self, m):
        if len(m) == 1:
            return self.var(m[0])
        v = self.monos.get(m)
        if v is None:
            v = self.monos[m] = (z3.Real if any(a in REAL_ATOMS for a in m) else z3.Int)("m_" + "_".join(map(str, m)))
        return v

    def pz(self, p):
        if type(p) is not Poly:
            return z3.IntVal(p)
        ts = [self.mono(m) if k == 1 else k * self.mono(m) for m, k in p.t.items()]
        if p.c:
            ts.append(z3.IntVal(p.c))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def fz(self, f):
        r = self.fc.get(f)
        if r is None:
            if f is True or f is False:
                return z3.BoolVal(f)
            k = f[0]
            if k == "ge":
                r = self.pz(f[1]) >= 0
            elif k == "gt":
                r = self.pz(f[1]) > 0
            elif k == "eq":
                r = self.pz(f[1]) == 0
            elif k == "ne":
                r = self.pz(f[1]) != 0
            elif k == "and":
                r = z3.And([self.fz(x) for x in f[1]])
            elif k == "or":
                r = z3.Or([self.fz(x) for x in f[1]])
            else:
                raise ValueError(f)
            self.fc[f] = r
        return r

    # ---- incremental stack
    def sync(self, pc):
        i = 0
        n = 0
        for ch in self.stack:
            m = len(ch)
            if n + m <= len(pc) and all(ch[j] is pc[n + j] for j in range(m)):
                n += m
                i += 1
            else:
                break
        for _ in range(len(self.stack) - i):
            self.s.pop()
        del self.stack[i:]
        if n < len(pc):
            ch = list(pc[n:])
            self.s.push()
            for f in ch:
                self.s.add(self.fz(f))
            self.stack.append(ch)

    def model_of(self, m):
        out = {}
        for a, v in self.vars.items():
            x = m.eval(v, model_completion=False)
            if z3.is_int_value(x):
                out[a] = x.as_long()
            elif z3.is_rational_value(x):
                out[a] = x.as_fraction()
        for mm, v in self.monos.items():
            x = m.eval(v, model_completion=False)
            if z3.is_int_value(x):
                out[mm] = x.as_long()
        return out

    def check(self, pc, f, timeout=None, want_model=False):
        """'unsat' | 'sat' | 'unknown', model (linear relaxation: sat may be spurious)"""
        if f is False:
            return "unsat", None
        t0 = time.time()
        self.sync(pc)
        if timeout:
            self.s.set("timeout", timeout)
        self.s.push()
        if f is not True:
            self.s.add(self.fz(f))
        try:
            r = str(self.s.check())
        except z3.Z3Exception:
            r = "unknown"
        m = None
        if r == "sat" and want_model:
            m = self.model_of(self.s.model())
        self.s.pop()
        if timeout:
            self.s.set("timeout", self.timeout)
        st = self.stats
        st.queries += 1
        dt = time.time() - t0
        st.time += dt
        st.slowest = max(st.slowest, dt)
        setattr(st, r, getattr(st, r) + 1)
        return r, m

    # ---- one-shot tiers
    def fresh(self, fs, timeout, logic="QF_LIA", nonlinear=False):
        t0 = time.time()
        s = z3.SolverFor(logic) if logic and not REAL_ATOMS else z3.Solver()
        s.set("timeout", timeout)
        for f in fs:
            if f is not True:
                s.add(self.fz(f))
        if nonlinear:
            for m in self.monos_of(fs):
                e = self.var(m[0])
                for a in m[1:]:
                    e = e * self.var(a)
                s.add(self.mono(m) == e)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        mod = self.model_of(s.model()) if r == "sat" else None
        st = self.stats
        st.queries += 1
        if nonlinear:
            st.nl_queries += 1
        st.time += time.time() - t0
        setattr(st, r, getattr(st, r) + 1)
        return r, mod

    def monos_of(self, fs):
        ps = []
        for f in fs:
            f_polys(f, ps)
        out = set()
        for p in ps:
            if type(p) is Poly:
                for m in p.t:
                    if len(m) > 1:
                        out.add(m)
        return sorted(out)

    def smtlib(self, fs, nonlinear, logic):
        ps = []
        for f in fs:
            f_polys(f, ps)
        monos = set()
        for p in ps:
            if type(p) is Poly:
                monos.update(p.t)
        atoms = set()
        for m in monos:
            atoms.update(m)
        lines = ["(set-logic %s)" % logic, "(set-option :produce-models true)"]
        for a in sorted(atoms):
            lines.append("(declare-const x%d %s)" % (a, "Real" if a in REAL_ATOMS else "Int"))
        if not nonlinear:
            for m in sorted(monos):
                if len(m) > 1:
                    lines.append("(declare-const m_%s Int)" % "_".join(map(str, m)))

        def num(k):
            return str(k) if k >= 0 else "(- %d)" % -k

        def mn(m):
            if len(m) == 1:
                return "x%d" % m[0]
            if nonlinear:
                return "(* %s)" % " ".join("x%d" % a for a in m)
            return "m_" + "_".join(map(str, m))

        def pz(p):
            if type(p) is not Poly:
                return num(p)
            ts = [mn(m) if k == 1 else "(* %s %s)" % (num(k), mn(m)) for m, k in p.t.items()]
            if p.c:
                ts.append(num(p.c))
            return ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)

        def fz(f):
            if f is True:
                return "true"
            if f is False:
                return "false"
            k = f[0]
            if k == "ge":
                return "(>= %s 0)" % pz(f[1])
            if k == "gt":
                return "(> %s 0)" % pz(f[1])
            if k == "gt":
                return "(> %s 0)" % pz(f[1])
            if k == "eq":
                return "(= %s 0)" % pz(f[1])
            if k == "ne":
                return "(not (= %s 0))" % pz(f[1])
            return "(%s %s)" % (k, " ".join(fz(x) for x in f[1]))

        for f in fs:
            lines.append("(assert %s)" % fz(f))
        lines.append("(check-sat)")
        lines.append("(get-model)")
        return "\n".join(lines)

    def cvc5(self, fs, timeout_s, nonlinear):
        t0 = time.time()
        txt = self.smtlib(fs, nonlinear, "QF_NIRA" if nonlinear else "QF_LIRA")
        fd, path = tempfile.mkstemp(suffix=".smt2")
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_s * 1000), path], capture_output=True, text=True,
                               timeout=timeout_s + 10)
            out = p.stdout
        except subprocess.TimeoutExpired:
            out = "unknown"
        finally:
            os.unlink(path)
        st = self.stats
        st.queries += 1
        st.cvc5_queries += 1
        st.time += time.time() - t0
        r = out.split("\n", 1)[0].strip()
        if r not in ("sat", "unsat"):
            st.unknown += 1
            return "unknown", None
        setattr(st, r, getattr(st, r) + 1)
        mod = None
        if r == "sat":
            import re
            mod = {}
            for a, v in re.findall(r"define-fun x(\d+) \(\) Int \(?(-? ?\d+)\)?", out):
                mod[int(a)] = int(v.replace(" ", ""))
        return r, mod


def dump(fs):
    return "\n".join(map(str, fs))
