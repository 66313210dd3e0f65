#!/usr/bin/env python3
# Writes MANIFEST.json from the tables below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Decided on the SSA form of the current tree with a field-sensitive, fully call-string-sensitive points-to analysis. "
          "Trusted: Go's type checker and SSA builder, the effect models of external functions (hv/ext.go), no reflection or unsafe in the repository. ")
CLAIMED = {
 "C01": ("concurrency effect analysis: points-to, escape and lockset dataflow over all pairs of exported operations",
         COMMON + "Every pair of conflicting accesses of any two exported operations must share a lock or be ordered by a sync.Once. Packages under cmd/ are single-threaded programs and not part of the concurrent API."),
 "C02": ("lock typestate on the interprocedural supergraph including panic and defer edges",
         COMMON + "External functions are assumed to take none of the repository's locks."),
}
exec(open(os.path.join(here, "tools", "claims.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims.py")) else None
NA = {
 "C22": "Linguistic correctness is defined by external orthography, not by the source; no static rule can decide it.",
 "C23": "Running time depends on backtracking counts and word lengths; a static cost bound for the regular-expression and lookaround loops is out of reach for a sound dataflow argument.",
 "C24": "Which text an edge assertion sees depends on match positions at run time. It is in fact violated: Find matches on the rest of the word after an earlier match, so `^` holds there (see DESIGN.md); deciding it for every pattern needs the semantics of the generated expressions.",
 "C25": "Readings come from third-party dictionaries; nothing in this source decides them.",
 "C26": "Code point arithmetic over all jamo triples is a matter of values, not of dataflow; a static rule would restate the formula.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
