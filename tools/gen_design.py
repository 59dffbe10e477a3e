"""Fills the lists of DESIGN.md (repairs, planted bugs) from known_findings.txt and seeded/."""
import glob, json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(HERE, 'DESIGN.md')).read()


def fill(name, text):
    global s
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + text.rstrip() + '\n' + s[j:]


rows = ['| commit | property | what failed |', '| --- | --- | --- |']
for l in open(os.path.join(HERE, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        rows.append('| %s | %s | %s |' % (m.group(2), m.group(1), m.group(3)))
fill('repairs', '\n'.join(rows))
caught = {}
p = os.path.join(HERE, 'tools', 'caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
rows = ['| id | property | needs | caught by |', '| --- | --- | --- | --- |']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], ', '.join(caught.get(i, [])) or 'missed'))
fill('planted', '\n'.join(rows))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
