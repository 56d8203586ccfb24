#!/usr/bin/python3
"""Writes DESIGN.md from tools/DESIGN.in, harness/registry.py, properties.jsonl and the seeds' meta.json"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "tools")]
sys.dont_write_bytecode = True
import registry
from design_props import P
props = ""
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    how, oracle, cost, why = P[p["id"]]
    s = registry.CHECKS[p["id"]]
    b = s["bounds"]
    props += "### %s %s\n%s\n* Technique: %s.\n* Oracle: %s.\n* Quick (about %d s): %s.\n" % (p["id"], p["title"], how, s["technique"], oracle, cost, b["quick"])
    if b["thorough"] != b["quick"]:
        props += "* Thorough: %s.\n" % b["thorough"]
    props += "* Why not tests: %s.\n\n" % why
seeds = "| seed | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    m = json.load(open(m))
    seeds += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"]))
t = open(os.path.join(V, "tools", "DESIGN.in")).read()
t = t.replace("@@PROPS@@", props.rstrip()).replace("@@SEEDS@@", seeds.rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write(t)
