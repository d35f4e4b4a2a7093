#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
 "C01": "property-based testing: random DAGs with generated step-finishing schedules, happens-before oracle",
 "C02": "property-based testing: random DAGs with generated schedules, work-conservation oracle; real-thread barriers",
 "C03": "property-based testing with fault injection: random failing sets and schedules, failure-containment oracle",
 "C04": "property-based testing: generated ill-formed and well-formed graphs, rejection oracle",
 "C05": "model-based property testing: random project graphs and edit/build histories against from-scratch evaluation",
 "C06": "model-based property testing: random histories, executed steps against a make-style reference model",
 "C07": "fault-injecting property testing: generated failures, kills and interrupts in histories, recovery oracle",
 "C08": "property-based testing: random projects and file names, tree-difference oracle for clean",
 "C09": "metamorphic property testing: path spellings and declaration permutations against the canonical run",
 "C10": "model-based property testing: request histories on target graphs against a reference model",
 "C11": "property-based testing: generated targets and argument vectors against a reference dispatcher",
 "C12": "model-based property testing: include graphs and edit histories, incremental against from-scratch, fake and real compilers",
 "C13": "property-based testing: random module graphs, validity predicate and reference resolver",
 "C14": "property-based testing: random option trees against a reference option algebra, argv seen by recording tools",
 "C15": "property-based testing: random source sets and product trees, composition and tree-difference oracle",
 "C16": "property-based testing: generated script trees against a reference trace",
 "C17": "model-based property testing: utility call histories against a dictionary model",
 "C18": "model-based property testing: header trees and install histories against expected prefix tree",
 "C19": "property-based testing: generated templates, statuses and output volumes against expected effects",
 "C20": "property-based testing: generated output path sets and initial trees, tree-difference oracle",
 "C21": "property-based testing: random descriptions and report sequences against a model of the description; differential oracle (twin process without reports)",
 "C22": "model-based property testing: random tool steps, option sets and edit histories, argv seen by recording tools against a reference",
 "C23": "differential property-based testing: interleaved request histories on several cores against each core alone in a fresh process",
}
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "pbt", "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i, "quick_cmd": "bash run.sh %s --tier quick" % i, "thorough_cmd": "bash run.sh %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": TECH[i],
        "level": "fault_enumeration" if i in ("C03x",) else "exploration",
        "level_note": NOTE.get(i, "Generated-input search: no counterexample among the cases counted in the evidence file; it does not "
            "establish absence. Trusts the oracle described in DESIGN.md, CPython's asyncio and fork, and the local file system's time stamps."),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive /repo's public interface as it is", "source_commits": []},
     "notes": "Run from /verif; every check forks fresh processes that import licant from /repo's working tree. known_findings.json lists recorded and fixed defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
