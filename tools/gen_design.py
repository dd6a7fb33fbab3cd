"""Writes DESIGN.md's table of properties, plants and repairs (below the marker) from the checks."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import boot
boot.reexec()
boot.paths()
from tools.design_notes import COMMON, N

MARK = "<!-- generated below by tools/gen_design.py -->"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fixed = json.load(open(V + "/known_findings.json"))["fixed"]
caught = json.load(open(V + "/tools/plants.json"))
out = [MARK, "", "## Properties", "", "Per property: how it is decided, what its sub-checks generate (cases quick / thorough, and what counts as non-trivial) and what it leaves open. Every sub-check searches over generated inputs and shrinks a failure to a replay file.", ""]
for p in props:
    c = importlib.import_module("checks." + p["id"].lower()).CHECK
    how, limits = N[p["id"]]
    out += [f"### {p['id']} {p['title']}", "", f"{how} Why tests cannot settle it: {p['why_tests_cant']}".strip(), ""]
    for s in c.subs:
        doc = " ".join((s.fn.__doc__ or "").split())
        out.append(f"* `{s.name}` ({s.quick} / {s.thorough}): {doc} {s.rule}.".replace("):  ", "): "))
    if c.assumptions:
        out += ["", "Assumes: " + "; ".join(c.assumptions) + "."]
    if limits:
        out += ["", "Limits: " + limits]
    mine = sorted(k for k, v in caught.items() if v["property"] == p["id"])
    if mine:
        out += ["", "Planted changes: " + "; ".join(f"{k} ({caught[k]['result']})" for k in mine) + "."]
    out.append("")
out += ["## Limits of the whole", ""] + ["* " + x for x in COMMON] + ["", "## Defects found and repaired", "", "Each was reported by the named check on the original tree with a shrunk input and repaired by one commit.", ""]
out += ["* " + f.removeprefix("fixed: property=") for f in fixed]
head = open(V + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n"
open(V + "/DESIGN.md", "w").write(head + "\n".join(out) + "\n")
