"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, json, pathlib, re
ROOT = pathlib.Path(__file__).resolve().parent.parent
by = collections.defaultdict(list)
for m in sorted(ROOT.glob("seeded/*/meta.json")):
    by[json.loads(m.read_text())["property"]].append(m.parent.name)
lines = [f"* {p} ({len(ids)}): {', '.join(i.removeprefix(p + '-') for i in ids)}" for p, ids in sorted(by.items())]
d = ROOT / "DESIGN.md"
text = d.read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
assert a in text and b in text
i, j = text.index(a) + len(a), text.index(b)
d.write_text(text[:i] + "\n".join(lines) + "\n" + text[j:])
