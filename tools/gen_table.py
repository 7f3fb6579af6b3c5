"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | needs |', '|---|---|']
for name in sorted(os.listdir(os.path.join(here, 'seeded'))):
    meta = json.load(open(os.path.join(here, 'seeded', name, 'meta.json')))
    rows.append('| %s | %s |' % (name, meta['needs'].replace('|', '/').replace('\n', ' ')))
table = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()
text = text.replace('@TABLE@', table)
text = re.sub(r'<!-- table -->.*?<!-- end -->', lambda m: table, text, flags=re.S)
open(path, 'w').write(text)
