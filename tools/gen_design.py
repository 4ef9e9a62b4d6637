"""Writes DESIGN.md = tools/design/head.md + property table (from the statements and the property modules) + tail.md + seeded table."""
import json, os, sys, importlib, glob
H = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, H)
out = open(H + '/tools/design/head.md').read()
how = json.load(open(H + '/tools/design/how.json'))
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if not os.path.exists(f'{H}/vc/props/{i.lower()}.py'):
        continue
    P = importlib.import_module('vc.props.' + i.lower()).PROP
    out += f"### {i} {p['title']}\n\n* decides: {how.get(i, '')}\n* bounds: {P.bounds}\n" + (f"* assumes: {'; '.join(P.assumptions)}\n" if P.assumptions else '') + f"* beyond the tests: {p['why_tests_cant']}\n\n"
out += open(H + '/tools/design/tail.md').read()
out += '| change | property | needs | caught by |\n|---|---|---|---|\n'
caught = json.load(open(H + '/tools/design/caught.json'))
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    out += f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, 'not yet tried')} |\n"
open(H + '/DESIGN.md', 'w').write(out)
