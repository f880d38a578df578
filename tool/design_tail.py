"""Writes the tables of DESIGN.md (after its TABLES line) from the known findings, the seeds' meta.json and the properties."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(H + "/DESIGN.md").read().split("<!-- TABLES -->")[0] + "<!-- TABLES -->\n\n"
kf = open(H + "/known_findings.txt").read().splitlines()
d += "## Known findings (genuine, recorded, not repaired)\n\n"
for l in kf:
    m = re.match(r"finding: property=(\w+) key=(.*?) :: (.*)", l)
    if m:
        d += "* %s `%s` — %s\n" % m.groups()
d += "\n## Defects found and repaired (`fix:` commits in /repo)\n\n"
for l in kf:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        d += "* %s %s — %s\n" % m.groups()
d += "\n## Planted bugs and the checks that catch them\n\nEach builds, passes the 362 tests, and is reported by the check of its property (rule in brackets where it was confirmed).\n\n"
for s in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + s + "/meta.json"))
    d += "* `%s` — %s: %s. Needs: %s. Caught by %s.\n" % (s, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), m["property"])
open(H + "/DESIGN.md", "w").write(d)
