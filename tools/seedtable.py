"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(ROOT + '/seeded/*'):
    m = json.load(open(d + '/meta.json'))
    rows.append((m['property'], os.path.basename(d), m['what_it_breaks'], m['needs']))
t = "| caught by | change | breaks | needs |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % r for r in sorted(rows))
p = ROOT + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: "<!-- seeds -->\n" + t + "\n<!-- /seeds -->", s, flags=re.S)
open(p, 'w').write(s)
