"""Rewrites the rows of the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for i in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"]))
s = open("DESIGN.md").read()
head = "| id | property = catching check | what it breaks | needs |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = a + re.match(r"(\|[^\n]*\n)*", s[a:]).end()
open("DESIGN.md", "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])
