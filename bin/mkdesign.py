#!/opt/venv/bin/python
"""Tables of DESIGN.md (between the markers) from the check modules, mkmanifest and the seeded changes.  Not run by any check."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
out = []
for p in props:
    i = p['id']
    m = importlib.import_module('checks.' + i.lower())
    try:
        ev = json.load(open(V + '/evidence/%s.json' % i))
        cost = ' Cost (quick, idle machine, 8 cores): about %d s.' % ev['wall_s'] if 'wall_s' in ev else ''
    except Exception:
        cost = ''
    out.append('### %s %s\n\n*Technique.* %s. *What.* %s *Bounds.* %s. *Outside.* %s.\n' % (
        i, p['title'], man[i]['technique'], m.WHAT.strip(), m.BOUNDS.strip().rstrip('.'), (getattr(m, 'OUTSIDE', '') or 'nothing').strip().rstrip('.')))
seeds = ['| seed | property | needs | breaks |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    d = json.load(open(V + '/seeded/%s/meta.json' % s))
    seeds.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'], d['what_it_breaks']))
t = open(V + '/DESIGN.md').read()
def put(t, name, body):
    return re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + body + '\n' + m.group(2), t, flags=re.S)
t = put(t, 'properties', '\n'.join(out))
t = put(t, 'seeds', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(t)
