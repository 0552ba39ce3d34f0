"""Rewrites the table of planted bugs at the end of DESIGN.md"""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for meta in sorted((root / 'seeded').glob('*/meta.json')):
    m = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {m['needs']} | {m['what_it_breaks']} |\n")
design = root / 'DESIGN.md'
head, _, tail = design.read_text().partition('| bug | needs | breaks |\n|-|-|-|\n')
rest = tail.splitlines(keepends=True)
while rest and rest[0].startswith('|'):
    rest.pop(0)
design.write_text(head + '| bug | needs | breaks |\n|-|-|-|\n' + ''.join(rows) + ''.join(rest))
