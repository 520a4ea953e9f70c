#!/usr/bin/env python3
"""Writes BOUNDS.md from the evidence files of a run of all checks on the unchanged tree."""
import json, os, datetime
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + "/MANIFEST.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = ["# Bounds of every scenario", "",
       "Generated by `tools/gen_bounds.py` from the evidence of one quick run of every check on the unchanged tree. *P* bounds the",
       "preemptions, *D* the deviations from the default (injected faults, reversed map order, pool choices, switches at releases).",
       "Every execution runs the instrumented code of /repo; states are the distinct outcomes observed.", ""]
tot = [0, 0]
for p in props:
    f = f"{V}/evidence/{p['id']}.json"
    e = json.load(open(f))
    if e["tier"] != "quick":
        raise SystemExit(f"{f}: not a quick run")
    out += [f"## {p['id']} {p['title']}", "",
            "| scenario | bound | P | D | executions | scheduling points | states | complete |",
            "|---|---|---|---|---:|---:|---:|---|"]
    for s in e["coverage"]["scenarios"]:
        b, pre, dev = s["bound"], "", ""
        if "preemptions<=" in b:
            b, _, r = b.rpartition("preemptions<=")
            b = b.strip().rstrip(";")
            pre, _, dev = r.partition(" deviations<=")
        if not s["complete"]:
            raise SystemExit(f"{p['id']} {s['scenario']} is not complete")
        out.append(f"| {s['scenario']} | {b.replace('|', '/')} | {pre} | {dev} | {s['executions']} | {s['scheduling_points']} | {s['states']} | yes |")
        tot[0] += s["executions"]
        tot[1] += s["scheduling_points"]
    out.append("")
out.append(f"In all: {tot[0]} executions, {tot[1]} scheduling points.")
open(V + "/BOUNDS.md", "w").write("\n".join(out) + "\n")
print(tot)
