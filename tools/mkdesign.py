#!/usr/bin/env python3
"""Updates the generated parts of DESIGN.md: titles, harness lists and times of the property sections (times from the
evidence of the last quick runs), and the table of planted bugs (their results from notes in tools/catches.json)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(root + "/DESIGN.md").read()
h = {}
for f in sorted(glob.glob(root + "/harness/c*.go")):
    for q, p in re.findall(r"^func (Q_(C\d+)_\w+)\(", open(f).read(), re.M):
        h.setdefault(p, []).append(q)
for l in open(root + "/properties.jsonl"):
    x = json.loads(l); i = x["id"]
    t = re.search(rf"^### {i} .*?\((.*?s)\)$", d, re.M)
    t = t.group(1) if t else "? s"
    try:
        e = json.load(open(f"{root}/evidence/{i}.json"))
        if e.get("tier") == "quick": t = f"{round(e['wall_s'])} s"
    except (OSError, KeyError): pass
    d = re.sub(rf"^### {i} .*$", f"### {i} {x['title']} ({t})", d, flags=re.M)
    d = re.sub(rf"(^### {i} (?:(?!^### ).)*?^\*Harnesses\*: )[^\n]*", lambda m: m.group(1) + ", ".join(h.get(i, [])) + ".", d, flags=re.M | re.S)
notes = json.load(open(root + "/tools/catches.json")) if os.path.exists(root + "/tools/catches.json") else {}
rows = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {notes.get(i, m['property'])} |")
a, b = d.index("<!-- catches -->"), d.index("<!-- /catches -->")
d = d[:a] + "<!-- catches -->\n" + "\n".join(rows) + "\n" + d[b:]
open(root + "/DESIGN.md", "w").write(d)
print(len(rows) - 2, "planted bugs")
