#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md, the properties, the evidence of the last quick runs and seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p["id"]: p for p in (json.loads(l) for l in open(here + "/properties.jsonl"))}
text = open(here + "/tools/design.md").read()
def section(m):
    i = m.group(1); p = props[i]; body = m.group(2).strip()
    out = "### %s: %s\n\n%s\n" % (i, p["title"], body)
    ev = here + "/evidence/%s.json" % i
    if os.path.exists(ev):
        c = json.load(open(ev))["coverage"]
        out += "\n| space | enumerated (thorough bounds in parentheses) | runs, quick tier |\n|---|---|---|\n"
        for s in c["spaces"]:
            out += "| %s | %s | %d |\n" % (s["space"], s["bounds"], s["runs"])
    return out + "\n"
text = re.sub(r"^@(C\d\d)\n(.*?)(?=^@|^## )", section, text, flags=re.S | re.M)
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s | %s quick |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["property"]))
text = text.replace("@SEEDED", "\n".join(rows))
fixed = [l.strip() for l in open(here + "/known-findings.txt") if l.startswith("fixed:")]
text = text.replace("@FIXED", "\n".join("* `%s` (%s): %s" % (m.group(2), m.group(1), m.group(3)) for m in (re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in fixed)))
open(here + "/DESIGN.md", "w").write(text)
