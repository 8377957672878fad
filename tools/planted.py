"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).parent.parent
d = (root / "DESIGN.md").read_text()
head = d[:d.index("| bug | property |")]
rows = ["| bug | property | what it breaks | what it needs |", "|---|---|---|---|"]
for f in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(f.read_text())
    rows.append("| " + " | ".join([f.parent.name, m["property"] + m.get("note", ""), m["what_it_breaks"], m["needs"]]) + " |")
(root / "DESIGN.md").write_text(head + "\n".join(rows) + "\n")
