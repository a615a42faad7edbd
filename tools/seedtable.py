"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | breaks | first try |', '|---|---|---|---|---|']
MISSED = json.load(open(os.path.join(H, 'tools', 'first_missed.json')))
for d in sorted(glob.glob(H + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); n = os.path.basename(d)
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], c(m['needs']), c(m['what_it_breaks']), MISSED.get(n.split('-')[0], 'caught')))
t = open(H + '/DESIGN.md').read()
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', t, flags=re.S)
open(H + '/DESIGN.md', 'w').write(t)
