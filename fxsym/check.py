"""python3-vt -m fxsym.check C01 [--tier quick|thorough] [--only REGEX] [--debug]"""
import sys, os, time, json, argparse, importlib, re, hashlib

from . import build, runner
from .llir import Module


class Plan:
    def __init__(self, prop, bounds, assumptions=(), not_covered=()):
        self.prop = prop
        self.crates = []
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.not_covered = list(not_covered)
        self.known = []
        self.lemma_out = []
        self.lemmas = []  # (crate tag, tasks)

    def crate(self, tag, tasks, **kw):
        self.crates.append((tag, tasks, kw))


def known_findings(prop):
    """recorded, unrepaired defects: lines 'known: property=<id> match=<regex over task and arguments> what=<text>'"""
    p = os.path.join(build.VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) what=(.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--label")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("FXSYM_PROCS", "0")) or os.cpu_count() or 8)
    ap.add_argument("--nobuild", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("fxsym.props.%s" % a.prop.lower())
    plan = mod.plan(a.tier)
    budget = getattr(mod, "BUDGET", {}).get(a.tier, 700 if a.tier == "quick" else 7200)
    jobd = getattr(mod, "JOB_S", {}).get(a.tier, 240 if a.tier == "quick" else 1800)
    opts = dict(getattr(mod, "OPTS", {}))
    opts.setdefault("seed", seed)
    if a.tier == "thorough":
        for k, v in dict(t_nl1=10, t_nl2=40, t_nl3=60, t_conc=60, traces=40).items():
            opts.setdefault(k, v)
    if a.debug:
        opts["debug"] = True
    # ---- build everything from /repo's working tree
    dirs = []
    optional, failed = set(), []
    tag0 = a.prop.lower() + ("" if a.tier == "quick" else "-t")
    for tag, tasks, kw in plan.crates:
        kw = dict(kw)
        opt = kw.pop("optional", False)
        dirs.append(build.gen_crate(tag0 + "-" + tag, sorted({(t.fn, t.body) for t in tasks}), **kw))
        if opt:
            optional.add(dirs[-1])
    if not a.nobuild:
        try:
            failed = build.build_all(dirs, optional)
        except build.BuildError as e:
            print("BUILD FAILED for %s\n%s" % (a.prop, e))
            sys.exit(2)
    tb = time.time() - t0
    jobs = []
    for (tag, tasks, kw), d in zip(plan.crates, dirs):
        full = tag0 + "-" + tag
        if d in failed:
            plan.not_covered.append("crate %s did not build" % tag)
            print("  note: crate %s did not build and is skipped" % tag)
            continue
        runner.Ctx.mods[full] = build.load_module(d)
        for t in tasks:
            if a.only and not re.search(a.only, t.name):
                continue
            for lab, ex in (t.splits or [("", None)]):
                if a.label and not re.search(a.label, lab):
                    continue
                jobs.append(runner.Job(full, t, lab, ex, jobd, dict(opts, **t.opts)))

    def lemma_phase():
        """prove the summaries' lemmas, level by level; only proved ones are used afterwards"""
        out = []
        lv = sorted({t.level for _, ts in plan.lemmas for t in ts})
        for l in lv:
            ljobs = [runner.Job(tag0 + "-" + tag, t, lab, ex, jobd, dict(opts, refine=opts.get("lemma_refine", 8), smt_ms=opts.get("lemma_ms", 20000), **t.opts))
                     for tag, ts in plan.lemmas for t in ts if t.level == l for lab, ex in (t.splits or [("", None)])]
            if not ljobs:
                continue
            rs = runner.run_jobs(ljobs, a.procs, stop_on_violation=False, hard_deadline=min(t0 + budget, time.time() + budget / 2), progress=progress)
            good = {}
            for j, r in zip(ljobs, rs):
                if r["limits"] == ["no such function"]:
                    continue  # not linked into this crate
                ok = r["proved"] > 0 or (r["paths"] == 0 and not r["limits"] and not r["errors"])
                ok = ok and not (r["undecided"] or r["limits"] or r["errors"] or r["violations"])
                good[j.task.key] = good.get(j.task.key, True) and ok
            for k, ok in good.items():
                if ok and not (os.environ.get("FXSYM_NOLEMMA") and re.search(os.environ["FXSYM_NOLEMMA"], "%s %s" % k)):
                    runner.Ctx.proven.add(k)
                out.append(dict(lemma="%s %s" % k, proved=ok))
            plan.lemma_results = getattr(plan, "lemma_results", []) + rs
        plan.lemma_out = out

    def progress(r):
        if a.debug or os.environ.get("FXSYM_VERBOSE"):
            print("  %-34s %-14s %6.1fs paths %d proved %d undecided %d limits %d queries %d solver %.1fs nl %d codes %s%s" % (
                r["task"], r["label"], r["wall"], r["paths"], r["proved"], len(r["undecided"]), len(r["limits"]), r["queries"], r["solver_s"],
                r["nl_queries"], r["codes"], " " + "; ".join(r["errors"] + r["mismatches"] + r["undecided"][:3]) if r["errors"] or r["mismatches"] or r["undecided"] else ""), flush=True)
    # what needs no summaries goes first
    early = [j for j in jobs if j.task.weight < 50] if plan.lemmas else []
    late = [j for j in jobs if j not in early] if early else jobs
    run = lambda js: runner.run_jobs(js, a.procs, stop_on_violation=not a.all, hard_deadline=t0 + budget, progress=progress) if js else []
    res = run(early)
    if a.all or not any(r["violations"] for r in res):
        lemma_phase()
        res += run(late)
    finish(a, plan, seed, t0, tb, jobs, res)


def finish(a, plan, seed, t0, tb, jobs, res):
    S = lambda k: sum(r[k] for r in res)
    viol = [v for r in res for v in r["violations"]]
    encoded = {}
    for r in res:
        encoded.update(r["encoded"])
    encoded_repo = {k: v for k, v in encoded.items()}
    undecided = ["%s[%s]: %s" % (r["task"], r["label"], u) for r in res for u in r["undecided"]]
    limits = ["%s[%s]: %s" % (r["task"], r["label"], u) for r in res for u in r["limits"]]
    errors = ["%s[%s]: %s" % (r["task"], r["label"], u) for r in res for u in r["errors"]]
    mism = [m for r in res for m in r["mismatches"]]
    samples = []
    for r in res:
        samples += r["samples"][:1]
    known = known_findings(plan.prop)
    cov = dict(
        states=S("paths"), transitions=S("forks"), traces_validated_against_impl=S("traces"), samples=samples[:12],
        explanation="states = feasible symbolic path ends (each stands for all inputs of its path condition), transitions = solver-decided "
                    "case splits, traces = members of paths executed on the real code (dev and release builds) with the encoded result",
        bounds=plan.bounds, not_covered=plan.not_covered,
        tasks=len({(r["crate"], r["task"]) for r in res}), jobs=len(res), jobs_planned=len(jobs), instructions_executed=S("steps"), path_ends_proved=S("proved"),
        queries=S("queries"), queries_unsat=S("unsat"), queries_sat=S("sat"), queries_unknown=S("unknown"), nonlinear_queries=S("nl_queries"),
        cvc5_queries=S("cvc5_queries"), solver_s=round(S("solver_s"), 2), slowest_query_s=max([r["slowest"] for r in res] or [0]),
        native_executions=S("native_runs"), functions_encoded=len(encoded_repo),
        functions_encoded_fixnum={k: v for k, v in sorted(encoded_repo.items()) if "fixnum" in k or k.startswith("fxh::")},
        functions_encoded_other=sorted(k for k in encoded_repo if not ("fixnum" in k or k.startswith("fxh::"))),
        undecided=undecided[:40], undecided_count=len(undecided), resource_limits=limits[:40], unsupported=errors[:40],
        encoding_mismatches=mism[:10], build_s=round(tb, 1),
        lemmas=getattr(plan, "lemma_out", []),
        lemma_queries=sum(r["queries"] for r in getattr(plan, "lemma_results", [])),
        lemma_solver_s=round(sum(r["solver_s"] for r in getattr(plan, "lemma_results", [])), 1),
        summaries_used=sorted({x for r in res for x in r.get("summaries", ())}),
        per_task={r["task"] + ("[%s]" % r["label"] if r["label"] else ""): dict(paths=r["paths"], proved=r["proved"], codes=r["codes"], wall_s=r["wall"], queries=r["queries"])
                  for r in res})
    ev = dict(property=plan.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=plan.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    ed = os.path.join(build.VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, plan.prop + ".json"), "w"), indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (plan.prop, k["what"]))
    print("%s: %d jobs, %d path ends, %d proved, %d queries (%.1fs solver), %d traces validated, undecided %d, limits %d, unsupported %d, wall %.1fs" % (
        plan.prop, len(res), S("paths"), S("proved"), S("queries"), S("solver_s"), S("traces"), len(undecided), len(limits), len(errors), time.time() - t0))
    bad = [l["lemma"] for l in getattr(plan, "lemma_out", []) if not l["proved"]]
    if plan.lemmas:
        print("  lemmas: %d proved, %d not%s" % (len(plan.lemma_out) - len(bad), len(bad), " (%s)" % ", ".join(bad) if bad else ""))
    for x in (undecided + limits + errors + mism)[:12]:
        print("  note:", x)
    viol = [v for v in viol if not any(re.search(k["match"], "%s %s %r" % (v["task"], v["args"], v["bytes"])) for k in known)]
    if viol:
        rd = os.path.join(ed, "replay")
        os.makedirs(rd, exist_ok=True)
        for v in viol:
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rd, "%s-%s.json" % (plan.prop, h))
            json.dump(v, open(path, "w"), indent=1)
            print("  %s %s %r observed %s (%s build)" % (v["task"], v["args"], v["bytes"], v["observed"], v["profile"]))
            print("VIOLATION property=%s replay=%s" % (plan.prop, path))
        sys.exit(1)
    if mism:
        # the encoding disagreed with the real code: nothing can be concluded
        sys.exit(2)
    if S("proved") == 0:
        print("nothing was decided")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":  # the order of sets steers the search: the same search every time
        os.execve(sys.executable, [sys.executable, "-m", "fxsym.check"] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED="0"))
    main()
