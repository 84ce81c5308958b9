#!/usr/bin/env python3
import os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(here, "tools"))
import registry, props_src, gen_manifest
o = [open(os.path.join(here, "doc/head.md")).read()]
for p in props_src.P:
    c = registry.CHECKS.get(p["id"]); o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append(p["statement"] + "\n")
    if not c: o.append("*Not claimed:* %s\n" % gen_manifest.NA.get(p["id"], gen_manifest.DEFAULT_NA)); continue
    o.append("* **Method:** %s. %s" % (c["technique"], c["note"])); o.append("* **Bounds (quick):** %s" % c["bounds"]["quick"]); o.append("* **Bounds (thorough):** %s" % c["bounds"]["thorough"])
    if c["assumptions"]: o.append("* **Assumptions:** " + "; ".join(c["assumptions"]))
    o.append("* **Harness:** " + ", ".join("checks/%s (%s)" % (x["src"], x["name"]) for x in c["parts"])); o.append("* **Why tests cannot:** %s\n" % p["why_tests_cant"])
import json
t = open(os.path.join(here, "doc/tail.md")).read(); d = json.load(open(os.path.join(here, "known_findings.json"))); L = d if isinstance(d, list) else d["findings"]
t = t.replace("@FIXED@", "\n".join("| %s | %s | %s |" % (f["property"], f["what"].split()[2], " ".join(f["what"].split()[3:])) for f in L if f["status"] == "fixed"))
rows = []
for n in sorted(os.listdir(os.path.join(here, "seeded"))) if os.path.isdir(os.path.join(here, "seeded")) else []:
    m = json.load(open(os.path.join(here, "seeded", n, "meta.json"))); rows.append("* `%s` (%s): %s - needs: %s" % (n, m["property"], m["what_it_breaks"], m["needs"]))
t = t.replace("@SEEDED@", "\n".join(rows)); o.append(t)
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o))
