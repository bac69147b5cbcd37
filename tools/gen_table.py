#!/usr/bin/env python3
# Fills the planted-change table of DESIGN.md from the meta files.
import json, glob, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
t = ['| change | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
  m = json.load(open(f))
  t.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m.get('caught_by', m['property']) , m['needs'], m['what_it_breaks']))
d = open(root + '/DESIGN.md').read()
d = re.sub(r'<!-- table -->.*<!-- /table -->', lambda _: '<!-- table -->\n' + '\n'.join(t) + '\n<!-- /table -->', d, flags=re.S)
open(root + '/DESIGN.md', 'w').write(d)
