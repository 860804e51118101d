#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json (both committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "bin/router/src/"
PROPS, CHECKS, NA = [], [], []
TECH = "contract-based deductive verification (Verus) of functions extracted from /repo on every run"

def P(id, title, statement, over, text, why, files, mech, claim=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": {"files": [R + f if not f.startswith(("lib/", "bin/")) else f for f in files],
                  "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if claim:
        CHECKS.append({"property": id, "quick_cmd": f"python3 bin/check.py {id}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {id}",
                       "technique": claim.get("technique", TECH), "level": claim.get("level", "proof"), "level_note": claim["note"]})
    else:
        NA.append({"property": id, "reason": na})

exec(open(f"{V}/bin/props_data.py").read())

open(f"{V}/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in PROPS))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": CHECKS, "not_applicable": NA}
h = f"{V}/hooks.json"
if os.path.exists(h): m["hooks"] = json.load(open(h))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")

# ---- DESIGN.md: the hand-written head, and a section per property from the same data ----
def lines_of(f):
    return [l.strip() for l in open(f)] if os.path.exists(f) else []
found = [l for l in lines_of(f"{V}/known_findings.jsonl") if l]
seeds = {}
for i in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    seeds.setdefault(json.load(open(f"{V}/seeded/{i}/meta.json"))["property"], []).append(i)
res = json.load(open(f"{V}/seeded_results.json")) if os.path.exists(f"{V}/seeded_results.json") else {}
out = [open(f"{V}/design_head.md").read()]
notes = {c["property"]: c["level_note"] for c in CHECKS}
nas = {n["property"]: n["reason"] for n in NA}
for p in PROPS:
    i = p["id"]
    out.append(f"### {i}. {p['title']}\n")
    if i in nas:
        out.append("**Not applicable.** " + nas[i] + "\n"); continue
    c = json.load(open(f"{V}/units/{i}/conf.json"))
    us = sorted(f for f in os.listdir(f"{V}/units/{i}") if f.endswith(".rs"))
    out.append("Decided by: " + notes[i] + "\n")
    out.append("Under contract (units " + ", ".join(u[:-3] for u in us) + "): " + c["explanation"] + "\n")
    out.append("Why beyond the tests: " + p["why_tests_cant"] + "\n")
    out.append("Assumed contracts:\n" + "\n".join("- " + x for x in c["trusted"]) + "\n")
    out.append("Assumptions and what stays bounded:\n" + "\n".join("- " + x for x in c["assumptions"]) + "\n")
    fs = [l for l in found if f"property={i} " in l] + [f"known: {json.loads(l)['what']} (input: `{json.loads(l)['key'][:160]}`)" for l in found if l.startswith("{") and json.loads(l)["property"] == i]
    if fs: out.append("Findings:\n" + "\n".join("- " + f for f in fs) + "\n")
    if seeds.get(i): out.append("Planted bugs:\n" + "\n".join(f"- {s}: {json.load(open(f'{V}/seeded/{s}/meta.json'))['what_it_breaks']}; needs {json.load(open(f'{V}/seeded/{s}/meta.json'))['needs']}. **{res.get(s, 'not run yet')}**" for s in seeds[i]) + "\n")
t = f"{V}/design_tail.md"
if os.path.exists(t): out.append(open(t).read())
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
