"""Writes DESIGN.md from tools/design/, the property modules and the last evidence."""
import ast, glob, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(R)
exec(open('tools/design/how.py').read())
out = [open('tools/design/head.md').read()]
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    src = open('pyvc/props/%s.py' % i.lower()).read()
    doc = ast.get_docstring(ast.parse(src)) or ''
    f = 'evidence/%s.json' % i
    e = json.load(open(f)) if os.path.exists(f) else None
    out.append('### %s %s\n' % (i, p['title']))
    if i in HOW and not HOW[i].startswith('See the'): out.append(HOW[i].replace('\n', ' ').strip() + '\n')
    rest = doc.split('\n\n', 1)[1] if '\n\n' in doc else ''
    if rest: out.append(rest.strip() + '\n')
    m = re.search(r"^NOTE = \((.*?)\)\n", src, re.M | re.S)
    if m: out.append('Note: ' + ast.literal_eval('(' + m.group(1) + ')') + '\n')
    if e:
        c = e['coverage']
        t = c.get('targets', [])
        if t:
            names = [x['name'] for x in t]
            shown = '; '.join(names) if len(names) <= 14 else '; '.join(names[:14]) + '; and %d more' % (len(names) - 14)
            out.append('Targets (%d, %d obligations, about %d s): %s.\n' % (len(t), c['obligations'], round(e['wall_s']), shown))
            out.append('Functions under contract: %s.\n' % ', '.join(x.split(':')[-1] for x in c['functions_under_contract']))
            if c.get('contracts_used'): out.append('Calls replaced by contracts: %s.\n' % ', '.join(x.split(':')[-1] for x in c['contracts_used']))
        if e.get('assumptions'): out.append('Assumed: ' + '; '.join(e['assumptions']) + '.\n')
        tb = [x for x in c.get('trusted_base', []) if not x.startswith(('pyvc:', 'z3 '))]
        if tb: out.append('Trusted: ' + '; '.join(tb) + '.\n')
tail = open('tools/design/tail.md').read()
fixes = ['| property | commit | what failed |', '|---|---|---|']
for l in open('known-findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: fixes.append('| %s | %s | %s |' % m.groups())
res = json.load(open('tools/design/caught.json')) if os.path.exists('tools/design/caught.json') else {}
seeds = ['| planted bug | property | breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[1]
    seeds.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), res.get(i, m['property'])))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n' + tail.replace('@FIXES@', '\n'.join(fixes)).replace('@SEEDS@', '\n'.join(seeds)))
