#!/usr/bin/env python3
"""writes DESIGN.md; measured costs come from tools/costs.json"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engine import bootstrap
bootstrap.load()
from tools import design_text as D
costs = json.load(open(f'{V}/tools/costs.json')) if os.path.exists(f'{V}/tools/costs.json') else {}
out = [D.HEAD, '## 2. Properties\n']
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    c = importlib.import_module('checks.' + i.lower())
    what, oracle, why = (' '.join(x.split()) for x in D.PROPS[i])
    out.append(f"### {i} {p['title']}\n")
    out.append(f'* **Executed symbolically:** {what}')
    out.append(f'* **Oracle:** {oracle}')
    out.append(f'* **Beyond the tests:** {why}')
    q, t = c.configs('quick'), c.configs('thorough')
    def names(cs):
        n = [x.name for x in cs]
        return ', '.join(f'`{x}`' for x in n[:14]) + (f', .. ({len(n)} configurations)' if len(n) > 14 else '')
    out.append(f'* **Bounds, quick:** {names(q)}')
    out.append(f'* **Bounds, thorough:** {names(t)}')
    if getattr(c, 'ASSUMPTIONS', None):
        out.append('* **Assumptions:** ' + '; '.join(c.ASSUMPTIONS))
    if getattr(c, 'OUTSIDE', None):
        out.append('* **Outside:** ' + c.OUTSIDE)
    k = costs.get(i, {})
    if k:
        out.append('* **Cost** (8 cores): ' + '; '.join(f"{tier}: {v['wall_s']:.0f} s, {v['paths']} paths, {v['queries']} solver queries, {v['obligations']} assertions discharged, {v['functions']} library functions executed"
                   + (f", {v['open']} configurations not exhausted within the time" if v.get('open') else '') for tier, v in sorted(k.items())))
    out.append('')
out.append('Configuration names: `n3a2` = 3 states, 2 inputs; further parts are options of the library function and word lengths; the parameters are listed in the evidence.\n')
out.append('## 3. Not applicable\n\nNo listed property is given up. Not turned into properties, because the family does not reach them: wall-clock statistics, '
           'visualisation (external graphviz rendering), what the external programs themselves compute (PRISM, jAlergia; the exchange with them is P38), the interactive oracle, '
           'and asymptotic query complexity (a statement without bound).\n')
out.append('## 4. Defects found in des-lab/aalpy\n')
out.append('Each was shown with a concrete input on the real code and repaired by one `fix:` commit; the listed check passes on the repaired tree and reports the violation on the tree before the fix.\n')
known = []
for l in open(f'{V}/KNOWN_FINDINGS.jsonl'):
    d = json.loads(l)
    if d['kind'] == 'fixed':
        out.append('* ' + d['fixed'].replace('fixed: property=', ''))
    else:
        known.append(d)
out.append('\nFindings recorded and not repaired:' + ('' if known else ' none.'))
for d in known:
    out.append('* ' + json.dumps(d))
out.append(D.SUSPECTED)
out.append('## 5. False alarms and corrected properties')
out.append(D.FALSE_ALARMS)
out.append('## 6. Planted bugs\n')
out.append('Each is caught by the quick check of its property (exit 1 with a VIOLATION line). *Initially missed* ones led to the stated extension.\n')
out.append('| id | what it breaks | needs | caught by | initially |\n|---|---|---|---|---|')
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append(f"| {n} | {d['what_it_breaks']} | {d['needs']} | {D.CAUGHT.get(n, d['property'])} | {D.MISSED.get(n, 'caught')} |")
out.append('')
out.append(D.CAMPAIGN)
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out))
print(sum(len(x) for x in out))
