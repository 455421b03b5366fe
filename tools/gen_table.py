"""Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs']} |\n")
p = here + '/DESIGN.md'
s = open(p).read()
head = "| planted change | needs |\n|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\nInitially missed, and", i)
open(p, 'w').write(s[:i] + ''.join(rows) + s[j:])
