"""Rewrite the list of planted bugs at the end of DESIGN.md."""
import collections, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for name in sorted(os.listdir(f"{here}/seeded")):
    meta = json.load(open(f"{here}/seeded/{name}/meta.json"))
    by[meta["property"]].append(name[4:])
path = f"{here}/DESIGN.md"
text = open(path).read()
head = text[: text.index("<!-- list of planted bugs -->")]
rows = ["<!-- list of planted bugs -->", "", "| caught by | planted bugs (`seeded/<check>-<name>`) |", "|---|---|"]
rows += [f"| {k} | {', '.join(v)} |" for k, v in sorted(by.items())]
open(path, "w").write(head + "\n".join(rows) + "\n")
