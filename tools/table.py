"""Print the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

MISSED = json.loads((pathlib.Path(__file__).parent / "missed_first.json").read_text())
root = pathlib.Path(__file__).resolve().parent.parent / "seeded"
print("| bug | check | what it breaks | at first |")
print("|----|----|----|----|")
rows = []
for d in root.iterdir():
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["what_it_breaks"].replace("|", "/")))
for p, n, w in sorted(rows):
    print(f"| {n} | {p} | {w} | {MISSED.get(n, 'caught')} |")
