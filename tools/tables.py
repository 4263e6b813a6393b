"""Fills the tables of DESIGN.md from known_findings.json and seeded/*/meta.json, seeds_result.json (by hand)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f'{H}/DESIGN.md').read()
k = json.load(open(f'{H}/known_findings.json'))
t = ['Repaired:', '', '| property | commit | what failed |', '|---|---|---|']
for f in k['fixed']:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', f)
    t.append('| ' + ' | '.join(m.groups()) + ' |')
r = json.load(open(f'{H}/tools/seeds_result.json')) if os.path.exists(f'{H}/tools/seeds_result.json') else {}
u = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(f'{H}/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    u.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {r.get(i, '?')} |")
for mark, rows in (('fixed', t), ('seeds', u)):
    d = re.sub(rf'<!-- {mark} -->.*?<!-- /{mark} -->', lambda _: f'<!-- {mark} -->\n' + '\n'.join(rows) + f'\n<!-- /{mark} -->', d, flags=re.S)
open(f'{H}/DESIGN.md', 'w').write(d)
