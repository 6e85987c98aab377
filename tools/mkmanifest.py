"""Writes MANIFEST.json (run by hand after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = ("TLC enumerates or samples the programs of spec/AutoEnum.tla, checks the property's invariants on the specified expansion, "
      "and every program is compiled with the real macro and executed on the same decision sequences; result, observation trace, "
      "structure of the generated type (or the diagnostic) must equal the specification's. ")
LIM = "Bounded: programs up to the listed number of grammar holes (exhaustive families) plus seeded random larger ones; trusts rustc, TLC and the renderer tools/render.py."
CHECKS = {}
for i in range(1, 10):
    CHECKS["C%02d" % i] = ("TLA+ spec of the macro (AutoEnum.tla) checked with TLC; model-generated programs replayed on the real macro", TR + LIM)
PENDING = {}
try:
    from manifest_extra import CHECKS as X
    CHECKS.update(X)
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks use the public macros of /repo's working tree only; no hooks were needed. See DESIGN.md.",
}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p}",
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
