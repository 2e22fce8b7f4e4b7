"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (
        os.path.basename(os.path.dirname(f)), m['property'],
        m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'),
        m.get('caught_by', m['property'])))
text = open(os.path.join(root, 'DESIGN.md')).read()
head, _, rest = text.partition('<!-- planted -->')
tail = rest.partition('<!-- /planted -->')[2]
open(os.path.join(root, 'DESIGN.md'), 'w').write(
    head + '<!-- planted -->\n| bug | property | needs | what breaks | caught by |\n|---|---|---|---|---|\n'
    + '\n'.join(rows) + '\n<!-- /planted -->' + tail)
