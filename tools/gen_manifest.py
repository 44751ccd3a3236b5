#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, by what method, and which are not."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
CH={}
def c(id,tech,note): CH[id]=(tech,note)
EFF="Trusted: the table of effects of standard-library and protobuf functions in checker/effects_calls.go, and go/ssa; anything not in the table that could touch repository memory is reported. "
c("C02","static effect and lock-set analysis over SSA (points-to summaries, one-time-initialisation and lock models)",
  "Decided for all schedules: every access to memory reachable from package state after initialisation is classified as read-only, lock-protected or once-ordered, on every path of every exported function. "+EFF)
c("C03","static effect analysis over SSA: write-sets of exported functions through parameters",
  "Decided for all inputs and paths, over-approximating aliases: no exported function writes memory reachable from a parameter other than the listed destinations. "+EFF)
c("C04","static escape and alias analysis over SSA: results and stored values against package state",
  "Decided for all call histories, over-approximating aliases. "+EFF)
c("C05","static effect analysis over SSA: post-initialisation writes to package state, with a value-dependency check of caches",
  "Decided for all call histories: every write after initialisation is to a recognised one-time table or to a cache whose stored value depends on nothing but its key and immutable state. "+EFF)
c("C06","static determinism analysis over SSA: map iterations proved order-insensitive, no nondeterministic sources",
  "Every map iteration in the module is shown to have order-independent effects or to be sorted before use; clock, random, environment and scheduling sources are forbidden. "+EFF)
c("C07","static call-graph reachability over SSA: external functions called by the library against an allow list",
  "Every external call reachable in the library packages is classified; packages with ambient effects are forbidden. Trusted: the allow list of pure standard-library packages.")
exec(open(os.path.join(here,"tools","manifest_more.py")).read()) if os.path.exists(os.path.join(here,"tools","manifest_more.py")) else None
NA={
"C30":"Round-trip equality quantifies over the values produced by metadata-driven regular-expression rewriting; no static argument in reach bounds it. Its structural parts (complete matches, unchanged digits, usable metadata) are separate properties.",
"C31":"Needs the upstream library as an oracle and equality of computed values; nothing about it is visible in the shape of this code.",
"C32":"Digit preservation depends on matching typed digits against templates made at run time from metadata; the template positions are run-time values that no sound static argument in reach bounds.",
"C33":"Equality of two results computed from swapped run-time values; a static argument would have to relate two executions through pattern matching and suffix comparison.",
}
for i in ids:
    if i not in CH and i not in NA: NA[i]="The analysis for this property has not been built."
m={"version":1,
 "setup_cmd":"./setup.sh",
 "checks":[{"property":i,"quick_cmd":"./run.sh "+i,"thorough_cmd":"./run.sh "+i,"technique":CH[i][0],"level":"other","level_note":CH[i][1]} for i in ids if i in CH],
 "not_applicable":[{"property":i,"reason":NA[i]} for i in ids if i not in CH],
 "notes":"All checks are one program, checker/, which loads and type-checks /repo's working tree, builds SSA and decides each property by static analysis; nothing of /repo is executed. The analysis has no bounds to deepen, so quick and thorough are the same run."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
