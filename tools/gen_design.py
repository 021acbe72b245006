"""Writes DESIGN.md from tools/design_head.md, the checks, tools/design_tail.md and seeded/*/meta.json (run with python3-vt)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
out = [open(V + '/tools/design_head.md').read().rstrip('\n') + '\n']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    c = importlib.import_module('checks.' + p['id'].lower()).CHECK
    out.append('### %s – %s\n' % (p['id'], p['title']))
    out.append('Generated, oracle: %s.\n' % c.RULE.rstrip('.'))
    out.append('Assumes: %s.\n' % '; '.join(c.ASSUME))
    out.append('Cost: quick %d s, thorough %d s on 8 cores. Tests cannot: %s.\n' % (c.QUICK_S, c.THOROUGH_S, (p.get('why_tests_cant') or p.get('why_not_tests') or '').rstrip('.')))
out.append(open(V + '/tools/design_tail.md').read().rstrip('\n') + '\n')
out.append('| Bug | Property | Needs | Caught by (quick) |\n|---|---|---|---|')
caught = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(caught.get(n, [m['property']]))))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
