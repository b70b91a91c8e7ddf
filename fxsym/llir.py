"""Parser for the subset of textual LLVM IR (LLVM 20, opaque pointers) that rustc emits."""
import re, struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "size", "align", "offs")

    def __init__(self, k, n=0, el=None, size=0, align=1, offs=None):
        self.k, self.n, self.el, self.size, self.align, self.offs = k, n, el, size, align, offs

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "a":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "s":
            return "{%s}" % ", ".join(map(repr, self.el))
        return self.k


_int = {}


def int_ty(n):
    if n not in _int:
        b = (n + 7) // 8
        al = 1
        while al < b:
            al *= 2
        _int[n] = Ty("i", n, size=al if n > 8 else 1, align=min(al, 16) if n > 8 else 1)
    return _int[n]


PTR = Ty("ptr", size=8, align=8)
DOUBLE = Ty("double", size=8, align=8)
FLOAT = Ty("float", size=4, align=4)
VOID = Ty("void")
OTHER = Ty("other")


def array_ty(n, el):
    return Ty("a", n, el, size=n * el.size, align=el.align)


def struct_ty(els, packed=False):
    off = 0
    al = 1
    offs = []
    for e in els:
        if not packed:
            off = (off + e.align - 1) // e.align * e.align
            al = max(al, e.align)
        offs.append(off)
        off += e.size
    if not packed:
        off = (off + al - 1) // al * al
    return Ty("s", len(els), els, size=off, align=al, offs=offs)


# ---------------------------------------------------------------- lexer
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
 | (?P<loc>%(?:"[^"]*"|[-\w$.]+))
 | (?P<meta>!(?:[-\w$.]+|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|\d+\.\d*(?:[eE][-+]?\d+)?|\d+))
 | (?P<qs>"[^"]*")
 | (?P<id>[A-Za-z_$.][-\w$.]*)
 | (?P<p>\.\.\.|<\{|\}>|[()\[\]{}<>,=*:|])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("lex: " + s[i:i + 60])
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
        i = m.end()
    return out


PARAM_ATTRS = {
    "noundef", "noalias", "nocapture", "readonly", "writeonly", "readnone", "nonnull", "zeroext", "signext", "inreg",
    "immarg", "returned", "dead_on_unwind", "writable", "nofree", "swiftself", "noext", "nest", "nosync", "dead_on_return",
}
PARAM_ATTRS_ARG = {"sret", "align", "dereferenceable", "dereferenceable_or_null", "range", "captures", "initializes",
                   "byval", "nofpclass", "elementtype", "preallocated", "allocalign", "inalloca", "byref", "memory"}


class P:
    """cursor over tokens"""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r at %r" % (s, self.t[self.i:self.i + 6]))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def skip_attrs(self):
        while self.i < len(self.t):
            x = self.t[self.i][1]
            if x in PARAM_ATTRS:
                self.i += 1
            elif x in PARAM_ATTRS_ARG:
                self.i += 1
                if self.peek() == "(":
                    self.skip_parens()
                elif self.kind() == "num":
                    self.i += 1
            elif self.t[self.i][0] == "qs":
                self.i += 1
                if self.accept("="):
                    self.i += 1
            else:
                return

    # ---- types
    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.next()
                self.skip_parens()
        elif x[0] == "i" and x[1:].isdigit():
            t = int_ty(int(x[1:]))
        elif x == "double":
            t = DOUBLE
        elif x == "float":
            t = FLOAT
        elif x == "void":
            t = VOID
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = array_ty(n, e)
        elif x == "{":
            t = struct_ty(self._tylist("}"))
        elif x == "<{":
            t = struct_ty(self._tylist("}>"), True)
        elif x == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = Ty("v", n, e, size=n * e.size, align=n * e.size)
        elif x.startswith("%"):
            t = self.mod.types.get(x)
            if t is None:
                t = self.mod.types[x] = P(lex(self.mod.rawtypes.pop(x)), self.mod).type()
        else:
            t = OTHER
        return t

    def _tylist(self, end):
        els = []
        if self.accept(end):
            return els
        while True:
            els.append(self.type())
            if self.accept(end):
                return els
            self.expect(",")

    # ---- values -> operand: ('c', v) constant, ('r', name)
    def value(self, ty):
        k, x = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("r", x)
        return ("c", self._const(ty, k, x))

    def _const(self, ty, k, x):
        if k == "num":
            if ty.k == "i":
                return int(x)
            if ty.k == "double":
                if x.startswith("0x"):
                    return struct.unpack(">d", int(x, 16).to_bytes(8, "big"))[0]
                return float(x)
            if ty.k == "float":
                if x.startswith("0x"):
                    return struct.unpack(">d", int(x, 16).to_bytes(8, "big"))[0]
                return float(x)
            raise IRError("num for " + repr(ty))
        if x == "true":
            return True
        if x == "false":
            return False
        if x == "null":
            return 0
        if x in ("undef", "poison"):
            return undef_of(ty)
        if x == "zeroinitializer":
            return zero_of(ty)
        if k == "glob":
            return GRef(x)
        if k == "str":
            return cbytes(x)
        if x in ("{", "<{", "[", "<"):
            end = {"{": "}", "<{": "}>", "[": "]", "<": ">"}[x]
            out = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    kk, xx = self.t[self.i]
                    self.i += 1
                    out.append(self._const(t, kk, xx))
                    if self.accept(end):
                        break
                    self.expect(",")
            return out
        if x in ("getelementptr",):
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
                if self.peek() == "(" and self.t[self.i - 1][1] == "inrange":
                    self.skip_parens()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.type()
            kk, xx = self.t[self.i]
            self.i += 1
            base = self._const(PTR, kk, xx)
            off = 0
            first = True
            cur = bt
            while self.accept(","):
                t = self.type()
                idx = int(self.next())
                if first:
                    off += idx * bt.size
                    first = False
                elif cur.k == "a":
                    off += idx * cur.el.size
                    cur = cur.el
                else:
                    off += cur.offs[idx]
                    cur = cur.el[idx]
            self.expect(")")
            if isinstance(base, GRef):
                return GRef(base.name, base.off + off)
            return base + off
        if x in ("inttoptr", "ptrtoint", "bitcast"):
            self.expect("(")
            t = self.type()
            kk, xx = self.t[self.i]
            self.i += 1
            v = self._const(t, kk, xx)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        raise IRError("const " + x)

    def tyval(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class GRef:
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return "%s+%d" % (self.name, self.off)


class Undef:
    def __repr__(self):
        return "undef"

    def __deepcopy__(self, m):
        return self


UNDEF = Undef()


def undef_of(ty):
    if ty.k == "s":
        return [undef_of(e) for e in ty.el]
    if ty.k == "a":
        return [undef_of(ty.el) for _ in range(ty.n)]
    return UNDEF


def zero_of(ty):
    if ty.k == "s":
        return [zero_of(e) for e in ty.el]
    if ty.k == "a":
        return [zero_of(ty.el) for _ in range(ty.n)]
    if ty.k in ("double", "float"):
        return 0.0
    if ty.k == "i" and ty.n == 1:
        return False
    return 0


def cbytes(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- module
class Fn:
    __slots__ = ("name", "params", "ret", "blocks", "entry", "demangled", "lines", "parsed", "noreturn", "ncode")


class Module:
    def __init__(self, text):
        self.types = {}
        self.rawtypes = {}
        self.fns = {}
        self.decls = {}
        self.globals = {}
        self.attrs = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        dem = None
        raw_decl = []
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                f = Fn()
                f.lines = lines[i:j + 1]
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                f.name = "@" + m.group(1)
                f.demangled = dem or f.name[1:]
                f.parsed = False
                self.fns[f.name] = f
                i = j
                dem = None
            elif l.startswith("; Function Attrs") or not l:
                pass
            elif l.startswith("; "):
                dem = l[2:]
            elif l.startswith("declare"):
                raw_decl.append((l, dem))
                dem = None
            elif l.startswith("@"):
                name, rest = l.split(" = ", 1)
                self.globals[name] = rest
            elif l.startswith("attributes"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                self.attrs[m.group(1)] = m.group(2)
            elif l.startswith("%") and " = type " in l:
                name, rest = l.split(" = type ", 1)
                self.rawtypes[name] = rest
            i += 1
        for name in list(self.rawtypes):
            if name in self.rawtypes:
                rest = self.rawtypes.pop(name)
                self.types[name] = P(lex(rest), self).type()
        for l, d in raw_decl:
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            nm = "@" + m.group(1)
            am = re.findall(r"#\d+", l[m.end():])
            nr = any("noreturn" in self.attrs.get(a, "") for a in am) or " noreturn" in l
            self.decls[nm] = (d or nm[1:], nr)

    def link(self, text, suffix):
        """add the definitions of another module; its local symbols are renamed"""
        local = set(re.findall(r'(?m)^(@(?:"[^"]*"|[-\w$.]+)) = (?:private|internal) ', text))
        local |= set("@" + x for x in re.findall(r'(?m)^define (?:private|internal) [^@\n]*@("[^"]*"|[-\w$.]+)\(', text))
        if local:
            def ren(m):
                x = m.group(0)
                if x not in local:
                    return x
                return x[:-1] + suffix + '"' if x.endswith('"') else x + suffix
            text = re.sub(r'@(?:"[^"]*"|[-\w$.]+)', ren, text)
        o = Module(text)
        for k, v in o.types.items():
            self.types.setdefault(k, v)
        for k, v in o.fns.items():
            self.fns.setdefault(k, v)
        for k, v in o.globals.items():
            if k not in self.globals or self.globals[k].startswith("external"):
                self.globals[k] = v
        for k, v in o.decls.items():
            self.decls.setdefault(k, v)

    def fn(self, name):
        f = self.fns.get(name)
        if f is not None and not f.parsed:
            parse_fn(f, self)
        return f

    def global_init(self, name):
        """-> (type, initialiser, is_constant)"""
        rest = self.globals[name]
        toks = lex(rest)
        p = P(toks, self)
        const = False
        while True:
            x = p.next()
            if x in ("constant", "global"):  # noqa
                const = x == "constant"
                break
            if x == "thread_local" and p.peek() == "(":
                p.skip_parens()
        t = p.type()
        if p.i >= len(p.t) or p.peek() == ",":
            return t, None, const
        k, x = p.t[p.i]
        p.i += 1
        return t, p._const(t, k, x), const

    def find(self, pattern):
        r = re.compile(pattern)
        return [f for f in self.fns.values() if r.search(f.demangled)]


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp",
         "contract", "afn", "reassoc"}


def join_lines(lines):
    """switch tables span lines"""
    out = []
    acc = None
    for l in lines:
        s = l.strip()
        if acc is not None:
            acc += " " + s
            if s.startswith("]"):
                out.append(acc)
                acc = None
            continue
        if s.startswith("switch") and not s.endswith("]"):
            acc = s
            continue
        out.append(s)
    return out


def parse_fn(f, mod):
    hdr = f.lines[0]
    p = P(lex(hdr), mod)
    # skip to return type: find the glob token index
    gi = next(i for i, (k, v) in enumerate(p.t) if k == "glob")
    # return type is the type ending right before gi: parse attributes from start
    p.i = 1
    LINK = {"internal", "private", "external", "hidden", "dso_local", "unnamed_addr", "local_unnamed_addr", "linkonce_odr",
            "weak_odr", "available_externally", "fastcc", "coldcc", "protected", "weak", "linkonce", "ccc"}
    while p.peek() in LINK:
        p.next()
    p.skip_attrs()
    f.ret = p.type()
    p.i = gi + 1
    p.expect("(")
    f.params = []
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                break
            t = p.type()
            p.skip_attrs()
            nm = p.next() if p.kind() == "loc" else None
            f.params.append((nm, t))
            if p.accept(")"):
                break
            p.expect(",")
    f.blocks = {}
    cur = None
    f.entry = None
    for s in join_lines(f.lines[1:-1]):
        if not s or s.startswith(";"):
            continue
        m = re.match(r'^("[^"]*"|[-\w$.]+):', s)
        if m:
            cur = "%" + m.group(1)
            f.blocks[cur] = []
            if f.entry is None:
                f.entry = cur
            continue
        if cur is None:
            cur = "%start"
            f.entry = cur
            f.blocks[cur] = []
        if s.startswith("#dbg"):
            continue
        f.blocks[cur].append(parse_inst(s, mod))
    f.parsed = True
    f.ncode = sum(len(b) for b in f.blocks.values())
    f.lines = None


def parse_inst(s, mod):
    p = P(lex(s), mod)
    dest = None
    if p.kind() == "loc" and len(p.t) > 1 and p.t[1][1] == "=":
        dest = p.next()
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BINOPS:
        flags = set()
        while p.peek() in FLAGS:
            flags.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return (op, dest, t, a, b, frozenset(flags))
    if op == "fneg":
        t = p.type()
        return (op, dest, t, p.value(t))
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        return (op, dest, t, a, p.type())
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.next()
        c = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        return (op, dest, c, t, a, p.value(t))
    if op == "br":
        if p.accept("label"):
            return ("jmp", None, p.next())
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        return ("br", None, c, a, p.next())
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)[1]
            p.expect(",")
            p.expect("label")
            cases.append((cv, p.next()))
        return ("switch", None, t, v, d, cases)
    if op == "ret":
        t = p.type()
        if t.k == "void":
            return ("ret", None, t, None)
        return ("ret", None, t, p.value(t))
    if op == "unreachable":
        return ("unreachable", None)
    if op == "phi":
        t = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            b = p.next()
            p.expect("]")
            inc[b] = v
            if not p.accept(","):
                break
        return ("phi", dest, t, inc)
    if op == "select":
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        t2 = p.type()
        b = p.value(t2)
        return ("select", dest, c, t, a, b)
    if op == "alloca":
        t = p.type()
        return ("alloca", dest, t)
    if op == "load":
        if p.peek() in ("volatile", "atomic"):
            p.next()
        t = p.type()
        p.expect(",")
        pt, a = p.tyval()
        return ("load", dest, t, a)
    if op == "store":
        if p.peek() in ("volatile", "atomic"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt, a = p.tyval()
        return ("store", None, t, v, a)
    if op == "getelementptr":
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(",")
        pt, base = p.tyval()
        steps = []  # (scale, operand, width)
        const = 0
        first = True
        cur = bt
        while p.accept(","):
            t = p.type()
            v = p.value(t)
            if first:
                sc = bt.size
                first = False
            elif cur.k == "a":
                sc = cur.el.size
                cur = cur.el
            else:
                idx = v[1]
                const += cur.offs[idx]
                cur = cur.el[idx]
                continue
            if v[0] == "c":
                const += sc * v[1]
            else:
                steps.append((sc, v, t.n))
        return ("gep", dest, base, const, steps)
    if op == "extractvalue":
        t = p.type()
        a = p.value(t)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return ("extractvalue", dest, a, idx)
    if op == "insertvalue":
        t = p.type()
        a = p.value(t)
        p.expect(",")
        t2 = p.type()
        b = p.value(t2)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return ("insertvalue", dest, a, b, idx)
    if op == "freeze":
        t = p.type()
        return ("freeze", dest, t, p.value(t))
    if op == "call":
        while p.peek() in FLAGS or p.peek() in ("fastcc", "coldcc", "ccc"):
            p.next()
        p.skip_attrs()
        rt = p.type()
        k, x = p.t[p.i]
        p.i += 1
        if k == "glob":
            callee = ("c", GRef(x))
        elif k == "loc":
            callee = ("r", x)
        elif x == "(":  # function type given explicitly: skip
            p.i -= 1
            p.skip_parens()
            k, x = p.t[p.i]
            p.i += 1
            callee = ("c", GRef(x)) if k == "glob" else ("r", x)
        elif x == "asm":
            return ("asm", dest)
        else:
            raise IRError("callee " + s)
        args = []
        p.expect("(")
        if not p.accept(")"):
            while True:
                t = p.type()
                if t is OTHER:  # metadata
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append((t, ("c", None)))
                else:
                    p.skip_attrs()
                    args.append((t, p.value(t)))
                if p.accept(")"):
                    break
                p.expect(",")
        return ("call", dest, rt, callee, args)
    if op in ("fence",):
        return ("nop", None)
    raise IRError("inst " + s)


if __name__ == "__main__":
    import sys
    m = Module(open(sys.argv[1]).read())
    for f in list(m.fns):
        m.fn(f)
    print(len(m.fns), "functions", sum(len(f.blocks) for f in m.fns.values()), "blocks")
    for g in m.globals:
        m.global_init(g)
