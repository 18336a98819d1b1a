"""Assembles DESIGN.md: hand-written parts, the table of runs (props.py) and the table of planted bugs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
T = {}
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    T[p["id"]] = p["title"]
out = []
for pid in sorted(PROPS, key=list(T).index):
    p = PROPS[pid]
    out.append(f"**{pid} {T[pid]}** — {p.note}.")
    for r in p.runs:
        out.append(f"* `{r.name}` (`{r.src}`{', thorough only' if r.thorough_only else ''}): {r.bounds}")
    if p.outside:
        out.append(f"* outside: {p.outside}")
    for a in p.assumptions:
        out.append(f"* assumes: {a}")
    out.append("")
seeds = ["| Bug | Check | Breaks | Needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda x: " ".join(str(x).replace("|", "/").split())
    seeds.append(f"| `{os.path.basename(os.path.dirname(f))}` | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
head = open(f"{V}/tools/design_head.md").read().replace("<!-- TABLE -->", "\n".join(out)).replace("<!-- SEEDS -->", "\n".join(seeds))
open(f"{V}/DESIGN.md", "w").write(head + open(f"{V}/tools/design_tail.md").read())
