#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties (run by hand after a property gets its check)."""
import json, os, importlib, sys
V = os.path.dirname(os.path.abspath(__file__))
LEVEL_NOTE = ("Every path of the compiled code (rustc LLVM IR, debug assertions and overflow checks on) is executed symbolically; "
              "an SMT solver decides each branch and each path's property for all inputs within the stated bounds. "
              "Trusted: rustc's lowering to IR, the executor's IR semantics (cross-validated by native traces of each path), z3/cvc5. "
              "Counterexamples are reported only after native replay in dev and release builds.")
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "hooks": {"guard": "cfg(fixnum_verif)", "enable": "RUSTFLAGS --cfg fixnum_verif, passed by fxsym/build.py to every harness build",
               "source_commits": ["ccf24d59d916a2fd0933b02ae90f1cf4e506f7c1"]},
     "notes": "Each check builds harness + /repo to LLVM IR and native code under build/, encodes the IR and discharges the queries; see DESIGN.md. "
              "The harness uses the public API; for C20 a cfg-guarded hook re-exports the private 256-bit type."}
for p in props:
    i = p["id"]
    f = os.path.join(V, "fxsym", "props", i.lower() + ".py")
    if os.path.exists(f):
        sys.path.insert(0, V)
        src = open(f).read()
        note = ""
        for l in src.splitlines():
            if l.startswith("NOTE = "):
                note = " " + eval(l[7:])
        m["checks"].append({"property": i, "quick_cmd": "python3-vt -m fxsym.check %s --tier quick" % i,
                            "thorough_cmd": "python3-vt -m fxsym.check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "symbolic execution of the compiled code (rustc LLVM IR) with SMT (z3, cvc5) verdicts per path; native replay",
                            "level": "model_checking", "level_note": LEVEL_NOTE + note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
