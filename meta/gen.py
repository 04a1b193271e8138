#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below.
Run: python3 /verif/meta/gen.py"""
import json, os, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
spec = importlib.util.spec_from_file_location("props", os.path.join(here, "props.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids = set()
with open(os.path.join(verif, "properties.jsonl"), "w") as f:
    for p in m.PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
checks, na = [], []
for p in m.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
                   "thorough_cmd": "bash check.sh " + p["id"],
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "All checks are static: one analyser (tool/) loads /repo with go/packages, builds SSA for every package and decides each rule on the current source. See DESIGN.md."}
json.dump(man, open(os.path.join(verif, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not applicable")

# DESIGN.md: the prose of design.md, then a section per property
import subprocess
docs = json.loads(subprocess.run([os.path.join(verif, "bin/joecheck"), "docs"], capture_output=True, text=True, check=True).stdout)
seeds = {}
for f in sorted(glob.glob(os.path.join(verif, "seeded/*/meta.json"))):
    j = json.load(open(f))
    seeds.setdefault(j["property"], []).append((f.split("/")[-2], j))
out = [open(os.path.join(here, "design.md")).read().rstrip(), "", "## The properties and how each is decided", ""]
for p in m.PROPS:
    if p.get("na"):
        continue
    d = docs[p["id"]]
    out += [f"### {p['id']} {p['title']}", "", p["statement"], "",
            "*Technique:* " + p["tech"] + ".", "",
            "*What is analysed:* " + d["Explanation"], "",
            "*Rules* (with the least number of instances that must be found, so that a rule that no longer sees its code is reported): ", ""]
    out += [f"- `{r['Name']}` (≥ {r['Min']}): {r['Text']}" for r in d["Rules"]]
    out += ["", "*What is decided and what is not:* " + p["note"], "", "*Why tests cannot:* " + p["why"], ""]
    if seeds.get(p["id"]):
        out += ["*Planted bugs, all caught by this check:*", ""]
        out += [f"- `{n}`: {j['what_it_breaks']}; needs {j['needs']}" for n, j in seeds[p["id"]]]
        out += [""]
out += ["## Not applicable", "", "Listed under `not_applicable` in MANIFEST.json.", ""]
for p in m.PROPS:
    if p.get("na"):
        out += [f"- **{p['id']} {p['title']}.** {p['na']}"]
out += ["", "## Genuine defects found", "", "Each was shown against the real code; `fixed` entries are repairs committed to /repo (they suppress nothing).", ""]
for l in open(os.path.join(verif, "known_findings.txt")):
    if l.startswith(("fixed:", "known:")):
        out += ["- " + l.strip()]
open(os.path.join(verif, "DESIGN.md"), "w").write("\n".join(out) + "\n")
