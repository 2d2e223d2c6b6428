#!/usr/bin/env python3-vt
"""Writes the table of planted bugs into DESIGN.md (between the two markers), from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    f = re.findall(r'^\+\+\+ b/(\S+)', open(d + '/patch.diff').read(), re.M)
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), ', '.join(os.path.basename(x) for x in f), m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
t = '| planted bug | file | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k.group(1) + t + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
