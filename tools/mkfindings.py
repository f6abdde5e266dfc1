"""Regenerates the 'fixed' lines of known_findings.json from the fix commits in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in open(os.path.join(V, 'tools', 'fixes.txt')):
    p, s = line.rstrip('\n').split(' ', 1)
    PROP[s] = p
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '2274141..'], capture_output=True, text=True).stdout
f = os.path.join(V, 'known_findings.json')
d = json.load(open(f)) if os.path.exists(f) else {'findings': []}
d['fixed'] = []
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    if s not in PROP:
        raise SystemExit('no property for: ' + s)
    d['fixed'].append('fixed: property=%s %s %s' % (PROP[s], h, s))
with open(f, 'w') as fh:
    json.dump(d, fh, indent=1)
    fh.write('\n')
print(len(d['fixed']))
