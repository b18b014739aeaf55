"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.
Usage: tools/table.py [RESULTS], RESULTS holding lines "id property rc=N" from running each property's check on each bug."""
import json, pathlib, re, sys

root = pathlib.Path(__file__).resolve().parent.parent
res = {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        f = line.split()
        if len(f) == 3:
            res[f[0]] = f[2] == "rc=1"
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    hit = res.get(d.name, True)
    rows.append((m["property"], f"| `{d.name}` | {m['property']} | {'yes' if hit else 'no'} | {m['needs']} |"))
rows.sort()
table = "| planted bug | property | reported by its check | needs |\n|---|---|---|---|\n" + "\n".join(r for _, r in rows)
p = root / "DESIGN.md"
s = p.read_text()
a, b = "<!-- planted -->\n", "\n<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + table + s[j:])
print(len(rows), "planted bugs,", sum(v is False for v in res.values()), "not reported")
