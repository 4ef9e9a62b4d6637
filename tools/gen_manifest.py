"""Writes MANIFEST.json from the property modules present."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
 'C31': 'wall-clock behaviour of sympy and of SIGALRM delivery: no part of it is Python source that can be executed symbolically within reach',
 'C32': 'depends on sympy.simplify/expand as a whole (a computer algebra system of several 100k lines), which cannot be encoded; the claim is a completeness claim about it (C34 decides it for families of formulas)',
}
NOTES = json.load(open(os.path.join(H, 'tools', 'level_notes.json')))
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(H, 'vc', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique='bounded symbolic execution of the real Python code, z3 decides every branch and assertion',
                           level='model_checking', level_note=NOTES.get(i, NOTES['default'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='Checks run the code of /repo (VERIF_REPO overrides) symbolically with the engine in symx/; see DESIGN.md. No hooks in /repo.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
