"""Writes /verif/seeded/<id>/ from the planted changes in tools/seeds/*.py.

Each of these files defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS,
BREAKS and DEMO (a program: exit 0 if the property holds in its scenario).
"""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''import os, sys, tempfile, contextlib
sys.path.insert(0, '/repo')


@contextlib.contextmanager
def scratch():
    """A scratch directory, which is the working directory meanwhile."""
    with tempfile.TemporaryDirectory() as d:
        old = os.getcwd()
        os.chdir(d)
        try: yield d
        finally: os.chdir(old)


'''
only = sys.argv[1:]
for p in sorted(glob.glob(os.path.join(ROOT, 'tools', 'seeds', '*.py'))):
    ns = {}
    exec(open(p).read(), ns)
    i = os.path.basename(p)[:-3]
    if only and i not in only: continue
    d = os.path.join(ROOT, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in ns['EDITS']:
            q = os.path.join(t, 'r', f)
            s = open(q).read()
            if s.count(old) != 1: sys.exit('%s: %d times in %s: %r' % (i, s.count(old), f, old))
            open(q, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'])
        # changed lines are lines of the original repository
        blame = []
        for f in {e[0] for e in ns['EDITS']}:
            h = subprocess.run(['git', '-C', t + '/r', 'diff', '-U0', '--', f], capture_output=True, text=True).stdout
            for l in h.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:]
                    st, _, n = a.partition(',')
                    n = int(n or 1)
                    if n:
                        b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', 'dbb565d..HEAD', '-L', '%s,+%d' % (st, n), '--', f], text=True)
                        blame += [x for x in b.splitlines() if not x.startswith('^')]
        if blame: print(i, 'changes lines of later commits:', *blame[:4], sep='\n  ')
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + ns['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/repo\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
