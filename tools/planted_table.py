"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
p = root / "DESIGN.md"
t = p.read_text()
t = re.sub(r"\| bug \| property \| needs \|\n(?:\|.*\n)+", lambda _: "\n".join(rows) + "\n", t)
p.write_text(t)
