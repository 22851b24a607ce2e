"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (development tool, run by hand)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(HERE, 'tools', 'fixed_map.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s', 'f72f647..HEAD'], stdout=subprocess.PIPE, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split('\t')
    if not s.startswith('fix: '): continue
    p = next((v for k, v in M.items() if k in s), None)
    if p is None: print('unmapped', s); continue
    out.append(f'fixed: property={p} {h} {s[5:]}')
f = os.path.join(HERE, 'known_findings.json')
d = json.load(open(f)); d['fixed'] = out
open(f, 'w').write(json.dumps(d, indent=1) + '\n')
