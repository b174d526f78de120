"""replaces the table of planted bugs in DESIGN.md by one generated from seeded/*/meta.json (caught: see RESULTS)"""
import json
import re
from pathlib import Path

root = Path(__file__).resolve().parent.parent
MISSED = {}  # id: note, for bugs that are not caught
rows = []
for m in sorted(root.glob("seeded*/*/meta.json"), key=lambda m: m.parent.name):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {MISSED.get(m.parent.name, 'caught')} |")
table = "| bug | check | what it breaks | needs | quick check |\n|---|---|---|---|---|\n" + "\n".join(rows)
p = root / "DESIGN.md"
s = p.read_text()
head, tail = s.split("<!-- bugs -->\n")[0], s.split("<!-- /bugs -->\n")[-1]
p.write_text(head + "<!-- bugs -->\n" + table + "\n<!-- /bugs -->\n" + tail)
