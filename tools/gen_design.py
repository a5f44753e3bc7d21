"""Writes DESIGN.md from its parts and the registered rules."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, V); sys.path.insert(0, H)
import json, textwrap
from zcheck import check as C
from design_props import PROSE
C.load_rules()
out = [open(H + "/design_head.md").read()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
for p in props:
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append(textwrap.fill(PROSE[p["id"]], 88) + "\n\n")
    for name, f, st in C.RULES.get(p["id"], []):
        out.append(textwrap.fill("* `%s`: %s" % (name, st), 88, subsequent_indent="  ") + "\n")
    out.append("\n")
out.append(open(H + "/design_tail.md").read())
out.append(open(H + "/design_catches.md").read() if os.path.exists(H + "/design_catches.md") else "")
open(V + "/DESIGN.md", "w").write("".join(out).rstrip("\n") + "\n")
