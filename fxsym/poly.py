"""Integer polynomials over atoms, and quantifier-free formulas over them."""
from math import gcd


class Poly:
    """c + sum coef * monomial; a monomial is a sorted tuple of atom ids"""
    __slots__ = ("c", "t", "_n", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._n = None
        self._h = None

    # normal form: self = c + g * n, n has content 1 and positive first coefficient
    def norm(self):
        if self._n is None:
            items = sorted(self.t.items())
            g = 0
            for _, k in items:
                g = gcd(g, k)
            if items[0][1] < 0:
                g = -g
            self._n = (g, tuple((m, k // g) for m, k in items))
        return self._n

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.norm()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return padd(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return psub(self, o)

    def __rsub__(self, o):
        return psub(o, self)

    def __mul__(self, o):
        return pmul(self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -1)


ATOMNAMES = []


def show(p):
    if isinstance(p, int):
        return str(p)
    s = []
    for m, k in sorted(p.t.items()):
        s.append("%d*%s" % (k, "*".join(ATOMNAMES[a] if a < len(ATOMNAMES) else "a%d" % a for a in m)))
    if p.c or not s:
        s.append(str(p.c))
    return " + ".join(s)


def atom_poly(a):
    return Poly(0, {(a,): 1})


def mk(c, t):
    return Poly(c, t) if t else c


def padd(a, b):
    if type(b) is not Poly:
        if type(a) is not Poly:
            return a + b
        return Poly(a.c + b, a.t) if b else a
    if type(a) is not Poly:
        return Poly(a + b.c, b.t) if a else b
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, k in b.t.items():
        v = t.get(m, 0) + k
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return mk(a.c + b.c, t)


def pscale(a, k):
    if type(a) is not Poly:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Poly(a.c * k, {m: v * k for m, v in a.t.items()})


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    if type(a) is not Poly:
        return pscale(b, a) if type(b) is Poly else a * b
    if type(b) is not Poly:
        return pscale(a, b)
    t = {}
    c = a.c * b.c
    if b.c:
        for m, k in a.t.items():
            t[m] = k * b.c
    if a.c:
        for m, k in b.t.items():
            v = t.get(m, 0) + k * a.c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    for m, k in a.t.items():
        for m2, k2 in b.t.items():
            mm = tuple(sorted(m + m2))
            v = t.get(mm, 0) + k * k2
            if v:
                t[mm] = v
            else:
                t.pop(mm, None)
    return mk(c, t)


def is_const(p):
    return type(p) is not Poly


def atoms_of(p, out=None):
    out = set() if out is None else out
    if type(p) is Poly:
        for m in p.t:
            out.update(m)
    return out


def peval(p, env):
    if type(p) is not Poly:
        return p
    s = p.c
    for m, k in p.t.items():
        v = k
        for a in m:
            v *= env(a)
        s += v
    return s


# ---------------------------------------------------------------- formulas
# True | False | ('ge', p) | ('eq', p) | ('ne', p) | ('and', (..)) | ('or', (..)) | ('real', obj)
def has_real(p):
    return bool(REAL_ATOMS) and any(a in REAL_ATOMS for m in p.t for a in m)


def ge0(p):
    if type(p) is not Poly:
        return p >= 0
    if REAL_ATOMS and has_real(p):
        return ("ge", p)
    g, n = p.norm()
    ag = abs(g)
    if ag != 1:
        # c + g*n >= 0  ->  floor(c/ag) + sign(g)*n >= 0
        s = 1 if g > 0 else -1
        p = Poly(p.c // ag, {m: k * s for m, k in n})
    return ("ge", p)


def eq0(p):
    if type(p) is not Poly:
        return p == 0
    if REAL_ATOMS and has_real(p):
        return ("eq", p)
    g, n = p.norm()
    if g != 1:
        if p.c % g:
            return False
        p = Poly(p.c // g, dict(n))
    return ("eq", p)


def ne0(p):
    return f_not(eq0(p))


def ge(a, b):
    return ge0(psub(a, b))


def gt(a, b):
    d = psub(a, b)
    if type(d) is not Poly:
        return d > 0
    if REAL_ATOMS and has_real(d):
        return ("gt", d)
    return ge0(psub(d, 1))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    return eq0(psub(a, b))


def ne(a, b):
    return ne0(psub(a, b))


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == "ge":
        if REAL_ATOMS and has_real(f[1]):
            return ("gt", pscale(f[1], -1))
        return ge0(psub(-1, f[1]))
    if k == "gt":
        return ("ge", pscale(f[1], -1))
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "and":
        return f_or(*[f_not(x) for x in f[1]])
    if k == "or":
        return f_and(*[f_not(x) for x in f[1]])
    if k == "real":
        return ("real", f[1].negate())
    raise ValueError(f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            for x in f[1]:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            for x in f[1]:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def f_imp(a, b):
    return f_or(f_not(a), b)


def f_iff(a, b):
    return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))


def f_polys(f, out):
    if f is True or f is False:
        return
    if f[0] in ("ge", "eq", "ne", "gt"):
        out.append(f[1])
    elif f[0] in ("and", "or"):
        for x in f[1]:
            f_polys(x, out)


def feval(f, env):
    if f is True or f is False:
        return f
    k = f[0]
    if k == "ge":
        return peval(f[1], env) >= 0
    if k == "gt":
        return peval(f[1], env) > 0
    if k == "eq":
        return peval(f[1], env) == 0
    if k == "ne":
        return peval(f[1], env) != 0
    if k == "and":
        return all(feval(x, env) for x in f[1])
    if k == "or":
        return any(feval(x, env) for x in f[1])
    raise ValueError(f)


def psubst(p, a, e):
    """p with atom a replaced by e"""
    if type(p) is not Poly:
        return p
    out, rest = 0, {}
    for m, k in p.t.items():
        n = m.count(a)
        if not n:
            rest[m] = k
            continue
        q = Poly(0, {tuple(x for x in m if x != a): k}) if len(m) > n else k
        for _ in range(n):
            q = pmul(q, e)
        out = padd(out, q)
    if len(rest) == len(p.t):
        return p
    return padd(mk(p.c, rest), out)


def fsubst(f, a, e):
    if f is True or f is False:
        return f
    k = f[0]
    if k == "and":
        return f_and(*[fsubst(x, a, e) for x in f[1]])
    if k == "or":
        return f_or(*[fsubst(x, a, e) for x in f[1]])
    if k == "real":
        return f
    p = psubst(f[1], a, e)
    if p is f[1]:
        return f
    if k == "ge":
        return ge0(p)
    if k == "eq":
        return eq0(p)
    if k == "ne":
        return ne0(p)
    return gt(p, 0)


def between(p, lo, hi):
    return f_and(ge(p, lo), ge(hi, p))

REAL_ATOMS = set()
