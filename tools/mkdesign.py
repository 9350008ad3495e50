#!/usr/bin/env python3
"""Writes DESIGN.md: head, per-property section from the rules and properties.jsonl, tail, table of planted bugs."""
import json, os, sys, importlib
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
T = os.path.join(V, "tools")
NA = json.load(open(os.path.join(T, "not_applicable.json")))
out = [open(os.path.join(T, "design_head.md")).read()]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in NA or not os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")): continue
    m = importlib.import_module("rules." + p["id"].lower())
    out.append("### %s — %s\n\n*Technique:* %s.\n\n%s\n\n*Why tests cannot settle it:* %s\n" % (p["id"], p["title"], m.TECHNIQUE, m.EXPLANATION, p["why_tests_cant"]))
res = json.load(open(os.path.join(T, "seed_results.json"))) if os.path.exists(os.path.join(T, "seed_results.json")) else {}
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), res.get(d, "?")))
mut = json.load(open(os.path.join(T, "mutations.json"))) if os.path.exists(os.path.join(T, "mutations.json")) else {}
mrows = ["| rule | mutations tried | caught | rewrites tried | quiet on |", "|---|---|---|---|---|"] + ["| %s | %s | %s | %s | %s |" % ((k,) + tuple(v)) for k, v in sorted(mut.items())]
tail = open(os.path.join(T, "design_tail.md")).read().replace("SEEDTABLE", "\n".join(rows)).replace("MUTTABLE", "\n".join(mrows))
out.append(tail)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
