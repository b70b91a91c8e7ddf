"""Turns tasks (harness function + symbolic inputs + specification) into solver verdicts."""
import os, sys, time, json, random, signal, traceback, re

from .poly import *
from . import poly as _poly
from .llir import Module, UNDEF
from .smt import Smt
from . import sym, build, fp

IO_I, IO_O, IO_S, IO_SO, IO_N, IO_M, IO_SIZE = 0, 64, 128, 192, 352, 360, 368


class Task:
    """One harness function with its input domain and specification.

    ints: [(name, lo, hi)] for io.i[k];  nbytes: length of the byte input, bytes_: [(lo, hi)] per byte
    pre(A) -> formula restricting the domain;  spec(A, R) -> formula that has to hold at every end
    panic_ok(A) -> formula: when a panic is allowed (default: never)
    splits: [(label, fn(A) -> formula)] exhaustive case split into parallel jobs
    """

    def __init__(self, name, body, ints=(), nbytes=0, bytes_=None, pre=None, spec=None, panic_ok=None, splits=None,
                 contracts=(), narrow=None, real=(), domain="", weight=1, concrete_spec=None, setup=None, trace_ok=True):
        self.name, self.body, self.ints, self.nbytes = name, body, list(ints), nbytes
        self.bytes_ = bytes_ or [(0, 127)] * nbytes
        self.pre, self.spec, self.panic_ok, self.splits = pre, spec, panic_ok, splits
        self.contracts = contracts
        self.narrow = narrow
        self.real = real
        self.domain = domain
        self.weight = weight
        self.concrete_spec = concrete_spec
        self.setup = setup
        self.trace_ok = trace_ok
        # lemmas: enter(eng, st, A) -> (function, arguments) or None, read(eng, st, value) -> outputs, key of the summary, level
        self.enter = self.read = self.key = None
        self.level = 0
        self.opts = {}
        self.fn = name  # harness function


class Args(list):
    bytes = ()


class Res:
    def __init__(self, kind, code, o, m, so):
        self.kind, self.code, self.o, self.m, self.so = kind, code, o, m, so

    def __repr__(self):
        return "Res(%s, %s, %s, m=%s, %r)" % (self.kind, self.code, self.o, self.m, self.so)


class Ctx:
    """per-process context"""
    mod = None
    mods = {}
    natives = {}
    proven = set()  # keys of the summaries whose lemmas were proved in this run


def holds(task, A, R):
    """concrete verdict of the specification"""
    if R.kind != "ret":
        f = task.panic_ok(A) if task.panic_ok else False
        return bool(f)
    f = (task.concrete_spec or task.spec)(A, R)
    if f is not True and f is not False:
        raise RuntimeError("specification not concrete: %r" % (f,))
    return f


def run_native(crate, task, args, profile):
    key = (crate, profile)
    n = Ctx.natives.get(key)
    if n is None:
        n = Ctx.natives[key] = build.Native(build.native_path(build.crate_dir(crate), profile))
    k = n.call(task.fn, list(args), bytes(args.bytes))
    if k[0] == "ret":
        return Res("ret", k[1], k[2], k[4], k[3])
    return Res(k[0], k[1], None, None, None)


class Job:
    def __init__(self, crate, task, label, extra, deadline_s, opts):
        self.crate, self.task, self.label, self.extra = crate, task, label, extra
        self.deadline_s = deadline_s
        self.opts = opts


class JobRun:
    def __init__(self, job):
        self.job = job
        self.task = job.task
        self.out = dict(task=job.task.name, label=job.label, crate=job.crate, paths=0, rets=0, panics=0, infeasible=0, proved=0,
                        undecided=[], violations=[], samples=[], traces=0, mismatches=[], codes={}, limits=[], errors=[])
        self.rnd = random.Random(job.opts.get("seed", 1))

    def run(self):
        t0 = time.time()
        job, task = self.job, self.task
        del ATOMNAMES[:]
        REAL_ATOMS.clear()
        fp.VALUE.clear()
        mod = Ctx.mods[job.crate]
        self.smt = Smt(job.opts.get("smt_ms", 3000))
        self.eng = eng = sym.Engine(mod, self.smt, deadline=t0 + job.deadline_s, max_paths=job.opts.get("max_paths", 20000))
        self.deadline = t0 + job.deadline_s
        st = sym.State()
        io = eng.alloc(st, IO_SIZE, "io")
        o, _ = eng.getobj(st, io, IO_SIZE, write=True)
        eng.store_bytes(st, o, 0, IO_SIZE, bytes(IO_SIZE))
        A = Args()
        for k, (nm, lo, hi) in enumerate(task.ints):
            p = eng.new_input(st, nm, lo, hi) if lo != hi else lo
            A.append(p)
            eng.store_bytes(st, o, IO_I + 16 * k, 16, p)
        bs = []
        for k in range(task.nbytes):
            lo, hi = task.bytes_[k]
            p = eng.new_input(st, "s%d" % k, lo, hi) if lo != hi else lo
            bs.append(p)
            eng.store_bytes(st, o, IO_S + k, 1, p)
        eng.store_bytes(st, o, IO_N, 8, task.nbytes)
        A.bytes = bs
        self.A = A
        if Ctx.proven or task.enter is not None:
            from . import kernel
            kernel.install(eng, task.enter is not None)
        eng.feas_ms = job.opts.get("feas_ms")
        eng.refine_rounds = job.opts.get("refine", 0)
        eng.light = job.opts.get("light", False)
        self.refine_end = job.opts.get("refine_end", 20)
        try:
            if task.pre is not None:
                eng.assume(st, task.pre(A))
            if job.extra is not None:
                eng.assume(st, job.extra(A))
            if task.setup is not None:
                task.setup(eng, st, A)
            if task.enter is not None:
                ent = task.enter(eng, st, A)
                if ent is None:
                    self.out["limits"].append("no such function")
                    raise StopJob()
                fn, argv = ent
            else:
                fname = "@" + task.fn
                if fname not in mod.fns:
                    raise build.BuildError("harness function %s missing from the IR" % task.fn)
                fn, argv = mod.fn(fname), [io]
            st = eng.start(fn, argv, st)
            self.io_oid = io >> sym.OBJ_SHIFT
            eng.explore(st, self.on_end)
        except sym.Infeasible:
            pass
        except StopJob:
            pass
        except Exception as e:
            self.out["errors"].append("%s: %s" % (type(e).__name__, str(e)[:600]))
            if job.opts.get("debug"):
                traceback.print_exc()
        s = self.smt.stats
        self.out.update(queries=s.queries, sat=s.sat, unsat=s.unsat, unknown=s.unknown, solver_s=round(s.time, 3), nl_queries=s.nl_queries,
                        cvc5_queries=s.cvc5_queries, slowest=round(s.slowest, 3), summaries=sorted(eng.used_summaries), refined=eng.refined, steps=eng.steps, forks=eng.forks,
                        encoded=dict(eng.encoded), wall=round(time.time() - t0, 2),
                        native_runs=sum(n.runs for n in Ctx.natives.values()))
        for n in Ctx.natives.values():
            n.runs = 0
        return self.out

    # ---- evaluating derived atoms from inputs
    def env(self, inputs):
        eng = self.eng
        cache = dict(inputs)
        info = eng.atoms.info

        def ev(a):
            v = cache.get(a)
            if v is None:
                i = info[a]
                if i[0] == "div":
                    d = peval(i[2], ev)
                    v = 0 if d == 0 else peval(i[1], ev) // d
                elif i[0] == "b2i":
                    v = int(feval(i[1], ev))
                elif i[0] == "ctlz":
                    v = i[2] - max(peval(i[1], ev), 0).bit_length()
                elif i[0] == "in":
                    v = 0
                elif i[0] == "fn":
                    v = i[1](ev)
                else:
                    raise RuntimeError("atom %r" % (i,))
                cache[a] = v
            return v
        return ev

    def clip(self, st, model):
        """total, in-domain input assignment from a model"""
        out = {}
        for a in self.eng.input_atoms:
            lo, hi = st.ab.get(a, (0, 0))
            v = model.get(a)
            if v is None:
                v = 0
            out[a] = int(max(lo, min(hi, v)))
        return out

    def concrete_args(self, inputs):
        B = Args(peval(p, inputs.__getitem__) for p in self.A)
        B.bytes = [peval(p, inputs.__getitem__) for p in self.A.bytes]
        return B

    def in_domain(self, B):
        t = self.task
        for (nm, lo, hi), v in zip(t.ints, B):
            if not lo <= v <= hi:
                return False
        for (lo, hi), v in zip(t.bytes_, B.bytes):
            if not lo <= v <= hi:
                return False
        return t.pre is None or t.pre(B) is True

    def replay(self, inputs):
        """native verdicts; returns violation record or None"""
        B = self.concrete_args(inputs)
        if not self.in_domain(B) or self.task.enter is not None:
            return None
        for prof in ("dev", "release"):
            R = run_native(self.job.crate, self.task, B, prof)
            if not holds(self.task, B, R):
                return dict(task=self.task.name, profile=prof, args={nm: v for (nm, _, _), v in zip(self.task.ints, B)},
                            bytes=bytes(B.bytes).decode("latin1"), observed=repr(R), crate=self.job.crate, body=self.task.body)
        return None

    # ---- path ends
    def result(self, st, kind, info):
        eng = self.eng
        if kind != "ret":
            return Res(kind, None, None, None, None)
        if self.task.read is not None:
            return Res("ret", 0, self.task.read(eng, st, info), 0, [])
        o = st.mem[self.io_oid]
        code = eng.S(st, info, 32)

        def get(off, n, signed):
            v = eng.load_bytes(st, o, off, n)
            return eng.canon(st, v, 8 * n, signed)
        outs = [get(IO_O + 16 * k, 16, True) for k in range(4)]
        m = get(IO_M, 8, False)
        c = eng.const_of(st, m)
        so = []
        if c is not None and c <= 160:
            so = [get(IO_SO + k, 1, False) for k in range(c)]
            m = c
        return Res("ret", code, outs, m, so)

    def on_end(self, st, kind, info):
        if kind == "limit":
            self.out["limits"].append(str(info))
            self.probe(st)
            if len(self.out["limits"]) > 3:
                raise StopJob()
            return
        if kind == "unsupported":
            self.out["errors"].append("Unsupported: %s" % str(info)[:600])
            self.probe(st)
            if len(self.out["errors"]) > 60:
                raise StopJob()
            return
        self.out["paths"] += 1
        eng, task = self.eng, self.task
        # canonicalising outputs may need case splits
        work = [st]
        while work:
            s = work.pop()
            try:
                R = self.result(s, kind, info)
                if kind == "ret":
                    code = eng.const_of(s, R.code)
                    if code is None:
                        eng.fork_values(s, R.code)
                    R.code = code
                    good = task.spec(self.A, R)
                else:
                    good = task.panic_ok(self.A) if task.panic_ok else False
                good = eng.simp(s, good)
            except sym.Fork as e:
                work.extend(self.kids(s, e.alts))
                continue
            except sym.ForkMark as e:
                work.extend(self.kids(s, e.alts))
                continue
            except sym.Infeasible:
                continue
            self.finish(s, kind, info, R, good)

    def kids(self, s, alts):
        # frames are gone at the end of a path; make_kids only needs the state
        eng = self.eng
        out = []
        for a in alts:
            f, mark = a if (type(a) is tuple and len(a) == 2 and type(a[1]) is tuple and a[1] and a[1][0] == "tl") else (a, None)
            if eng.simp(s, f) is False or not eng.possible(s, f):
                continue
            k = s.fork()
            try:
                eng.assume(k, f)
                eng.learn(k, f)
            except sym.Infeasible:
                continue
            if mark:
                k.defs[mark] = True
            out.append(k)
        return out

    def finish(self, st, kind, info, R, good):
        out = self.out
        verdict = self.decide(st, good, kind, info)
        key = ("ret %s" % R.code) if kind == "ret" else kind
        out["codes"][key] = out["codes"].get(key, 0) + 1
        if verdict == "proved":
            out["proved"] += 1
            if kind == "ret":
                out["rets"] += 1
                self.trace(st, R)
            else:
                out["panics"] += 1
        elif verdict == "undecided":
            out["undecided"].append("%s %s" % (key, str(info)[:80] if kind != "ret" else ""))

    def trace(self, st, R):
        if self.task.enter is not None:
            return
        """validate the encoding: a concrete member of the path, executed natively, must give the encoded result"""
        lim = self.job.opts.get("traces", 12)
        if self.out["traces"] >= lim or not self.task.trace_ok:
            return
        if self.out.get("trace_tries", 0) > 3 * lim:
            return
        self.out["trace_tries"] = self.out.get("trace_tries", 0) + 1
        r, model = self.smt.check(st.pc, True, want_model=True)
        if r != "sat":
            return
        inp = self.clip(st, model)
        ev = self.env(inp)
        try:
            if not all(feval(f, ev) for f in st.pc):
                return
        except RuntimeError:
            return
        B = self.concrete_args(inp)
        if not self.in_domain(B):
            return
        exp = (R.code, [peval(x, ev) for x in R.o], peval(R.m, ev), bytes(peval(x, ev) for x in R.so))
        for prof in ("dev", "release"):
            N = run_native(self.job.crate, self.task, B, prof)
            if not holds(self.task, B, N):
                self.violation(inp)
                return
            got = (N.code, N.o, N.m, N.so) if N.kind == "ret" else (N.kind, N.code)
            if got != exp:
                self.out["mismatches"].append("%s %s: encoded %s, real code %s (%s)" % (self.task.name, list(B), exp, got, prof))
                return
        self.out["traces"] += 1
        if len(self.out["samples"]) < 2:
            self.out["samples"].append(dict(fn=self.task.name, args=[str(x) for x in B], text=bytes(B.bytes).decode("latin1"),
                                            result=[exp[0]] + [str(x) for x in exp[1]], out=exp[3].decode("latin1")))

    def probe(self, st):
        """a path that cannot be followed to its end: solver models of its condition are still tried on the real code"""
        if self.task.enter is not None:
            return
        n = self.out["probes"] = self.out.get("probes", 0)
        if n > 60:
            return
        more = [True]
        for a in self.eng.input_atoms:
            lo, hi = st.ab.get(a, (0, 0))
            p = atom_poly(a)
            more += [eq(p, lo), eq(p, hi), between(p, (lo + hi) // 2 - 1000, (lo + hi) // 2 + 1000)]
        for f in more[:13]:
            r, model = self.smt.check(st.pc, f, want_model=True, timeout=1000)
            if r == "sat":
                self.out["probes"] += 1
                self.violation(self.clip(st, model))

    def violation(self, inp):
        v = self.replay(inp)
        if v:
            self.out["violations"].append(v)
            raise StopJob()

    def try_model(self, st, model, neg):
        """returns True when the model is a genuine member of the path violating the encoded spec"""
        inp = self.clip(st, model)
        self.violation(inp)
        ev = self.env(inp)
        try:
            if all(feval(f, ev) for f in st.pc) and feval(neg, ev):
                B = self.concrete_args(inp)
                if self.in_domain(B):
                    self.out["mismatches"].append("%s %s: solver counterexample not reproduced by the real code" % (self.task.name, list(B)))
                    if len(self.out["mismatches"]) > 5:
                        raise StopJob()
        except RuntimeError:
            pass

    def decide(self, st, good, kind, info):
        if good is True:
            return "proved"
        neg = f_not(good)
        eng, smt = self.eng, self.smt
        if st.notes.get("hidden"):
            st.pc = list(st.pc) + list(st.notes["kept"])
            for a, e in reversed(st.notes["hidden"]):
                neg = fsubst(neg, a, e)
                st.pc = [g for g in (fsubst(f, a, e) for f in st.pc) if g is not True]
            if neg is False or False in st.pc:
                return "proved"
        eng.prep(st, neg)
        left = self.deadline - time.time()
        r, model = eng.query(st, neg, rounds=self.refine_end, want_model=True, timeout=int(min(20000, max(1000, left * 1000))))
        if r == "unsat":
            return "proved"
        if r == "sat":
            self.try_model(st, model, neg)
        if task_is_lemma(self.task):
            return "undecided"
        fs = list(st.pc) + [neg]
        nl = bool(smt.monos_of(fs))
        o = self.job.opts
        tiers = []
        if not nl:
            tiers = [("z3", o.get("t_lin", 20)), ("cvc5", o.get("t_lin", 20))]
        else:
            tiers = [("z3", o.get("t_nl1", 5)), ("cvc5", o.get("t_nl2", 10)), ("z3", o.get("t_nl3", 20)), ("conc", o.get("t_conc", 20))]
            if r == "unknown":
                tiers.insert(0, ("lin", 10))
        for kind_, t in tiers:
            left = self.deadline - time.time()
            if left < 1:
                break
            t = min(t, left)
            if kind_ == "lin":
                r, model = smt.fresh(fs, int(t * 1000), "QF_LIA", False)
            elif kind_ == "z3":
                r, model = smt.fresh(fs, int(t * 1000), None if nl else "QF_LIA", nl)
            elif kind_ == "cvc5":
                r, model = smt.cvc5(fs, t, nl)
            else:
                r, model = self.concretise(st, fs, t)
            if r == "unsat":
                return "proved"
            if r == "sat" and model is not None:
                self.try_model(st, model, neg)
                if self.out["mismatches"]:
                    break
        return "undecided"

    def concretise(self, st, fs, t):
        """bounded hunt: fix one input to a boundary value, keep the others symbolic"""
        t1 = time.time() + t
        for a in self.eng.input_atoms:
            lo, hi = st.ab.get(a, (0, 0))
            cand = []
            for c in (lo, hi, lo + 1, hi - 1, 1, -1, 2, -2, 3, 5, 7, 10, 100, 1000, -10, -1000, (lo + hi) // 2, hi // 2, hi // 3, lo // 2, hi // 10):
                if lo <= c <= hi and c not in cand:
                    cand.append(c)
            for _ in range(6):
                c = self.rnd.randint(lo, hi)
                cand.append(c)
            for c in cand:
                if time.time() > t1:
                    return "unknown", None
                r, m = self.smt.fresh(fs + [("eq", psub(atom_poly(a), c))], 1500, None, True)
                if r == "sat":
                    return r, m
        return "unknown", None


def task_is_lemma(t):
    return t.enter is not None


class StopJob(Exception):
    pass


def _worker(job):
    try:
        return JobRun(job).run()
    except BaseException as e:  # noqa
        return dict(task=job.task.name, label=job.label, crate=job.crate, errors=["%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])],
                    violations=[], undecided=[], mismatches=[], limits=[], samples=[], codes={}, encoded={}, paths=0, proved=0, traces=0,
                    queries=0, sat=0, unsat=0, unknown=0, solver_s=0, nl_queries=0, cvc5_queries=0, slowest=0, steps=0, forks=0, wall=0,
                    rets=0, panics=0, native_runs=0)


def _child(jobs, z3seed, fd):
    """a few jobs in a process of their own"""
    import pickle, z3
    os.setsid()
    if z3seed:
        z3.set_param("smt.random_seed", z3seed)
        z3.set_param("sat.random_seed", z3seed)
    with os.fdopen(fd, "wb") as f:
        for j in jobs:
            data = pickle.dumps(_worker(j))
            f.write(len(data).to_bytes(8, "little") + data)
            f.flush()


class Proc:
    def __init__(self, todo, jobs, z3seed):
        self.todo, self.t0, self.buf = list(todo), time.time(), b""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                _child([jobs[i] for i in todo], z3seed, w)
            finally:
                os._exit(0)
        os.close(w)
        self.fd = r

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        self.end()

    def end(self):
        os.close(self.fd)
        os.waitpid(self.pid, 0)

    def feed(self):
        """results that arrived; None: the process has ended"""
        import pickle
        x = os.read(self.fd, 1 << 20)
        if not x:
            return None
        self.buf += x
        out = []
        while len(self.buf) >= 8:
            n = int.from_bytes(self.buf[:8], "little")
            if len(self.buf) < 8 + n:
                break
            out.append((self.todo.pop(0), pickle.loads(self.buf[8:8 + n])))
            self.buf = self.buf[8 + n:]
            self.t0 = time.time()
        return out


STRAGGLER_S = 20  # with nothing else to start, a job running for longer gets a second process with another solver seed
KILL_S = 60  # a process this long over its job's deadline is ended


def run_jobs(jobs, procs, stop_on_violation=True, hard_deadline=None, progress=None):
    """jobs run in forked processes, which inherit the parsed modules; a job that hangs is tried again with another solver seed"""
    import select, gc
    queue = sorted(range(len(jobs)), key=lambda i: -jobs[i].task.weight)
    queue.reverse()  # taken from the end
    results, running, tries = {}, [], {}
    gc.freeze()

    def start(todo):
        for i in todo:
            tries[i] = tries.get(i, 0) + 1
        running.append(Proc(todo, jobs, tries[todo[0]] - 1))

    def retry(todo):
        """the first job of a process that failed, and what it had not begun"""
        queue.extend(reversed([i for i in todo[1:] if i not in results]))
        i = todo[0]
        if i not in results and not any(i in q.todo for q in running):
            if tries[i] < 3:
                start([i])
            else:
                results[i] = dict(_blank(jobs[i]), limits=["no result"])

    def drop(p):
        running.remove(p)
        p.kill()
    try:
        while len(results) < len(jobs):
            now = time.time()
            if hard_deadline is not None and now >= hard_deadline:
                break
            for p in list(running):
                if p.todo and now - p.t0 > jobs[p.todo[0]].deadline_s + KILL_S:
                    drop(p)
                    retry(p.todo)
            while len(running) < procs and queue:
                k = max(1, min(8, len(queue) // (6 * procs)))
                todo = [queue.pop()]
                while len(todo) < k and jobs[queue[-1]].crate == jobs[todo[0]].crate and jobs[queue[-1]].task.weight == jobs[todo[0]].task.weight and tries.get(queue[-1], 0) == 0:
                    todo.append(queue.pop())
                start(todo)
            if not queue:
                for p in sorted((p for p in running if p.todo), key=lambda p: p.t0):
                    i = p.todo[0]
                    if len(running) < procs and tries[i] < 3 and now - p.t0 > STRAGGLER_S * tries[i] and sum(i in q.todo for q in running) == tries[i]:
                        start([i])
            if not running:
                break
            wait = 2.0 if hard_deadline is None else max(0.05, min(2.0, hard_deadline - now))
            for fd in select.select([p.fd for p in running], [], [], wait)[0]:
                p = next((p for p in running if p.fd == fd), None)
                if p is None:
                    continue
                got = p.feed()
                if got is None:
                    running.remove(p)
                    p.end()
                    if p.todo:  # ended from outside
                        retry(p.todo)
                    continue
                for i, r in got:
                    if i in results:
                        continue
                    for q in [q for q in running if q is not p and i in q.todo]:
                        drop(q)
                        queue.extend(reversed([x for x in q.todo if x not in results and x != i]))
                    results[i] = r
                    if progress:
                        progress(r)
                    if stop_on_violation and r["violations"]:
                        raise StopJob()
    except StopJob:
        pass
    finally:
        for p in list(running):
            drop(p)
    for i in range(len(jobs)):
        if i not in results and hard_deadline is not None and time.time() >= hard_deadline:
            results[i] = dict(_blank(jobs[i]), limits=["check time limit"])
    return [results[i] for i in sorted(results)]


def _blank(job):
    return dict(task=job.task.name, label=job.label, crate=job.crate, errors=[], violations=[], undecided=[], mismatches=[], limits=[], samples=[],
                codes={}, encoded={}, paths=0, proved=0, traces=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0, nl_queries=0,
                cvc5_queries=0, slowest=0, steps=0, forks=0, wall=0, rets=0, panics=0, native_runs=0)
