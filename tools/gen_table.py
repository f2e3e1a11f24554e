"""fills the detection table of DESIGN.md from tools/caught.txt (lines: ID PROPERTY verdict)"""
import os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | reported by its check | what it breaks |', '|---|---|---|---|']
res = {}
p = os.path.join(R, 'tools/caught.txt')
if os.path.exists(p):
    for l in open(p):
        f = l.split(None, 2)
        if len(f) == 3:
            res[f[0]] = f[2].strip()
for i in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], res.get(i, '?'), m['what_it_breaks'].replace('|', '/')))
d = os.path.join(R, 'DESIGN.md')
s = open(d).read()
mark = '<!-- table -->'
body = mark + '\n' + '\n'.join(rows) + '\n' + mark
if '@@TABLE@@' in s:
    s = s.replace('@@TABLE@@', body)
else:
    a = s.index(mark)
    b = s.rindex(mark) + len(mark)
    s = s[:a] + body + s[b:]
open(d, 'w').write(s)
