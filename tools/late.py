"""Development audit: are there assumed facts whose formulas change with the state after they were assumed?

./run.sh tools/late.py c09 [target]
"""
import importlib, sys
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
import z3
from pyvc import core
from pyvc.core import *
from pyvc.engine import Engine
found = {}
orig = core.Cx.add_fact


def ev(cx, fn, args):
    g, cx.gen = cx.gen, 99
    a, cx.assume = cx.assume, lambda f: None
    try: r = fn(*args)
    finally:
        cx.gen = g
        del cx.assume
    if isinstance(r, SBool): r = r.t
    if r is None or isinstance(r, bool): r = z3.BoolVal(True if r is None else r)
    return z3.simplify(r)


def add_fact(self, keys, fn, name=''):
    ks = keys if isinstance(keys, (tuple, list)) else (keys,)
    ph = [z3.Const('ph%d' % i, I if isinstance(s, str) else s) for i, s in enumerate(ks)]
    f0 = None
    try: f0 = ev(self, fn, ph)
    except BaseException as e: print('cannot', name, repr(e)[:100])
    def wrapped(*t):
        if f0 is not None and name not in found and len(self.log) != wrapped.at:
            wrapped.at = len(self.log)
            try:
                f1 = ev(self, fn, ph)
                if not f1.eq(f0):
                    s = z3.Solver()
                    s.set('timeout', 3000)
                    s.add(f1 != f0)
                    if s.check() != z3.unsat:
                        found[name] = 1
                        print('LATE', name, flush=True)
                        if len(sys.argv) > 3: print(f0, '\n----\n', f1)
            except BaseException as e:
                found[name] = 1
                print('cannot now', name, repr(e)[:100])
        return fn(*t)
    wrapped.at = -1
    return orig(self, keys, wrapped, name)


core.Cx.add_fact = add_fact
m = importlib.import_module('pyvc.props.' + sys.argv[1])
for t in m.targets('quick'):
    if len(sys.argv) > 2 and sys.argv[2] not in t['name']: continue
    e = Engine(budget=600)
    for k, v in t.get('opts', {}).items(): setattr(e, k, v)
    r = e.run(t['name'], t['fn'], t.get('covers', []))
    print(t['name'], r.status, str(r.detail)[:100], flush=True)
