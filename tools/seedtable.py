"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json; the * marks (missed at first) are kept."""
import glob
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
t = open(p).read()
m = re.search(r'\| bug \| needs \|\n\|---\|---\|\n((?:\|.*\n)*)', t)
starred = set(re.findall(r'^\| (\S+) \* \|', m.group(1), re.M)) | set(sys.argv[1:])
rows = ''
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    rows += '| %s%s | %s |\n' % (i, ' *' if i in starred else '', json.load(open(f))['needs'])
t = t[:m.start(1)] + rows + t[m.end(1):]
open(p, 'w').write(t)
