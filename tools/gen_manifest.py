#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TRACE = ("TLA+ specification (Wire, Core); its design model-checked with TLC (MCRsp, MCReq, MCNet); behaviours TLC generates are replayed by the "
         "real peers, and every recorded session is validated against the specification (Trace)")
note = plan.NOTES
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.NA:
        na.append({"property": i, "reason": plan.NA[i]})
        continue
    checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                   "technique": note[i][0] if i in note else TRACE, "level": "model_checking",
                   "level_note": note[i][1] if i in note else plan.DEFAULT_NOTE})
json.dump({"version": 1, "setup_cmd": "bash check.sh setup",
           "hooks": {"guard": "cfg(spdm_verif)", "enable": "RUSTFLAGS='--cfg spdm_verif' (set by tools/check.py)",
                     "source_commits": ["95d03f3f28898e759fe7ea5781622a6e044e6ee5"]},
           "checks": checks, "not_applicable": na,
           "notes": "The hook only re-exports message types that the crate keeps private (ERROR and MEASUREMENTS parts). See DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
