"""Writes DESIGN.md: the texts of tools/design_text.py, the planted bugs of seeded/, the repairs of known_findings.json, the costs of evidence/."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from design_text import HEAD, P, TAIL
from levels import NOTES

fixed = json.load(open(ROOT / "known_findings.json"))["fixed"]
out = [HEAD]
for l in open(ROOT / "properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    spec, bind, bounds = P[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* *Method*: {NOTES[i][0]}.")
    out.append(f"* *Specified*: {spec}")
    out.append(f"* *Bound to the code*: {bind}")
    out.append(f"* *Bounds*: {bounds}")
    out.append(f"* *Beyond tests*: {p['why_tests_cant']} Quantified over {p['quantifier']['text']}.")
    e = ROOT / "evidence" / f"{i}.json"
    costs = ROOT / "tools" / "costs.json"
    costs = json.load(open(costs)) if costs.exists() else {}
    if e.exists():
        d = json.load(open(e))
        if d["tier"] == "quick":
            costs[i] = [round(d["wall_s"] / 5) * 5 or 5, f"{float('%.2g' % d['coverage']['states']):.0f}", d["coverage"]["traces_validated_against_impl"]]
            json.dump(costs, open(ROOT / "tools" / "costs.json", "w"))
    if i in costs:
        out.append(f"* *Cost (quick)*: about {costs[i][0]} s; about {costs[i][1]} states, {costs[i][2]} executions of the code.")
    f = [x.split(" ", 3)[2:] for x in fixed if f"property={i} " in x]
    if f:
        out.append("* *Defects found and repaired*: " + "; ".join(f"{w} ({h})" for h, w in f) + ".")
    bugs = sorted(b for b in (ROOT / "seeded").iterdir() if json.load(open(b / "meta.json"))["property"] == i)
    out.append("* *Planted bugs caught by this check*: " + "; ".join(f"`{b.name}`" for b in bugs) + ".\n")
out.append(TAIL)
(ROOT / "DESIGN.md").write_text("\n".join(out))
