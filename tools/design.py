#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md: a line @@Cxx becomes what the harnesses of the property say about
themselves and the planted bugs for it, @@BUGS the table of planted bugs, @@FIXES the list of repairs."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = {}
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    bugs[os.path.basename(os.path.dirname(m))] = json.load(open(m))
results = json.load(open(here + "/tools/caught.json"))
titles = {p["id"]: p for p in map(json.loads, open(here + "/properties.jsonl"))}

def harnesses(pid):
    out = []
    for f in sorted(glob.glob(f"{here}/harness/{pid.lower()}/*.go")):
        doc = []
        for line in open(f):
            if line.startswith("//"):
                doc.append(line[2:].strip())
                continue
            m = re.match(r"func (H_\w+)\(\)", line)
            if m:
                text = " ".join(d for d in doc if d and not d.startswith("gosym:"))
                text = re.sub(r"^H_\w+:? *", "", text)
                marks = []
                if "gosym:native=no" in doc: marks.append("executor only")
                if "gosym:tier=thorough" in doc: marks.append("thorough only")
                out.append(f"  - `{m[1]}`{' (' + ', '.join(marks) + ')' if marks else ''}: {text}")
            doc = []
    return out

out = []
for line in open(here + "/tools/design.md"):
    line = line.rstrip("\n")
    m = re.match(r"@@(C\d\d)$", line)
    if m:
        pid = m[1]
        out.append("- Harnesses and bounds:")
        out += harnesses(pid)
        mine = [b for b in bugs if bugs[b]["property"] == pid]
        if mine:
            out.append("- Planted: " + "; ".join(f"`{b}` ({results.get(b, 'not run')})" for b in mine))
    elif line == "@@BUGS":
        out += ["| planted bug | property | needs | breaks | result |", "|---|---|---|---|---|"]
        for b, m in bugs.items():
            out.append(f"| `{b}` | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {results.get(b, 'not run')} |")
    elif line == "@@FIXES":
        for f in json.load(open(here + "/known-findings.json")):
            if "fixed" in f:
                out.append(f"- {f['property']}: `{f['fixed']}`")
    else:
        m = re.match(r"### (C\d\d)$", line)
        out.append(f"### {m[1]} {titles[m[1]]['title']}" if m else line)
open(here + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "lines")
