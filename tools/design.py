"""Rewrites the table of planted bugs in DESIGN.md and the number of repairs."""
import glob
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | check | needs | breaks |', '|-|-|-|-|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m['what_it_breaks']))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = s.replace('@PLANTS@', '<!-- plants -->\n<!-- end -->')
s = re.sub('<!-- plants -->.*?<!-- end -->', lambda m: '<!-- plants -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
