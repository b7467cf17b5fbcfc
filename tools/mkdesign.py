#!/usr/bin/env python3
"""rewrites the generated parts of DESIGN.md (the tables of planted bugs and of repaired defects) from seeded/ and known_findings.txt"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); f = sorted(set(re.findall(r'^\+\+\+ b/(\S+)', open(os.path.dirname(d) + '/patch.diff').read(), re.M)))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], ', '.join(os.path.basename(x) for x in f), m['needs'], m['what_it_breaks']))
bugs = '| change | caught by | file | needs | breaks |\n|---|---|---|---|---|\n' + '\n'.join(rows)
fx = []; kn = []
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fx.append('| %s | %s | %s |' % m.groups())
    m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
    if m: kn.append('| %s | `%s` | %s |' % m.groups())
fixes = '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fx)
known = '| property | case | what fails |\n|---|---|---|\n' + '\n'.join(kn)
s = open(V + '/DESIGN.md').read()
for n, t in (('bugs', bugs), ('fixes', fixes), ('known', known)):
    s = re.sub(r'(<!-- %s -->).*?(<!-- end -->)' % n, lambda m: m.group(1) + '\n' + t + '\n' + m.group(2), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
