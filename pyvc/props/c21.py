"""Classification follows the cutoffs."""
from .lib import *
from .msglib import *

ASSUMPTIONS = ['floats are taken as real numbers; NaN and the infinities are cases of their own']

OLD = 'the classification from before'


def start(vc):
    old = Opaque(OLD)
    return sym_message(vc, [Stretch('headers', ())], c=old, messageid=text('id'), t=Opaque('trained')), old


def probability(kind):
    def run(vc):
        m, old = start(vc)
        x = z3.Real('p')
        p = SReal(x) if kind == 'any number' else float(kind)
        r, exc = vc.attempt(lambda: force(vc.method(m, 'set_classification', p)))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        if kind == 'any number': low, high = x < realval(0.2), x > realval(0.9)
        else: low, high = z3.BoolVal(float(kind) < 0.2), z3.BoolVal(float(kind) > 0.9)
        got = m.fields['c']
        vc.prove('ham below the ham cutoff', is_c(got, Classification.ham) == low)
        vc.prove('spam above the spam cutoff', is_c(got, Classification.spam) == high)
        vc.prove('unsure otherwise', is_c(got, Classification.unsure) == z3.Not(z3.Or(low, high)))
        vc.prove('returned', z3.And([is_c(r, c) == is_c(got, c) for c in Classification]))
        q, exc = vc.attempt(lambda: force(vc.method(m, 'classification')))
        vc.prove('remembered', exc is None and z3.And([is_c(q, c) == is_c(got, c) for c in Classification]))
        rest(vc, m)
        vc.cover('end')
    return dict(name='probability: %s' % kind, fn=run, covers=['end'])


def rest(vc, m):
    frame(vc, m, but=('c',))
    vc.prove('headers stay', same_items(m.start_items, m.fields['_headers'].items))


def is_c(v, c):
    v = force(v)
    if isinstance(v, SAlt): return z3.Or([g for g, w in v.alts if w is c] or [z3.BoolVal(False)])
    return z3.BoolVal(v is c)


def given(c):
    def run(vc):
        m, old = start(vc)
        r, exc = vc.attempt(lambda: force(vc.method(m, 'set_classification', c)))
        vc.prove('no exception', exc is None)
        vc.prove('taken as it is', m.fields['c'] is c)
        vc.prove('returned', r is c)
        q, exc = vc.attempt(lambda: force(vc.method(m, 'classification')))
        vc.prove('remembered', exc is None and q is c)
        rest(vc, m)
        vc.cover('end')
    return dict(name='given %s' % c.name, fn=run, covers=['end'])


def refused(what, make):
    def run(vc):
        m, old = start(vc)
        r, exc = vc.attempt(lambda: force(vc.method(m, 'set_classification', make())))
        vc.prove('refused', exc is not None)
        vc.prove('classification unchanged', m.fields['c'] is old)
        rest(vc, m)
        vc.cover('end')
    return dict(name='refused: %s' % what, fn=run, covers=['end'])


OTHERS = [('nothing', lambda: None), ('an integer', lambda: SInt(z3.Int('k'))), ('a bool', lambda: SBool(z3.Bool('b'))),
          ('a text', lambda: text('s')), ('the text "spam"', lambda: 'spam'), ('bytes', lambda: b'ham'), ('a tuple', lambda: ()),
          ('a list', lambda: PyList([])), ('another object', lambda: Opaque('object')), ('a class', lambda: Classification)]


def targets(tier):
    return ([probability(k) for k in ('any number', 'nan', 'inf', '-inf', '0.2', '0.9', '0.19999999999999998', '0.9000000000000001')] +
            [given(c) for c in Classification] + [refused(*o) for o in OTHERS])


# ---------------------------------------------------------------- the real code

def cases(rng):
    import math
    near = [0.2, 0.9, 0.0, 1.0, 0.5, -1.0, 2.0, 1e308, -1e308, 5e-324]
    yield dict(v='0.2')
    while True:
        r = rng.random()
        if r < 0.4:
            x = rng.choice(near)
            for _ in range(rng.choice([0, 1, 1, 2, 5])): x = math.nextafter(x, rng.choice([-math.inf, math.inf]))
            yield dict(v=repr(x))
        elif r < 0.7: yield dict(v=repr(rng.choice([rng.random(), rng.uniform(-10, 10)])))
        elif r < 0.8: yield dict(v=rng.choice(["float('nan')", "float('inf')", "-float('inf')"]))
        elif r < 0.9: yield dict(v='Classification.' + rng.choice(['ham', 'spam', 'unsure']))
        else: yield dict(v=rng.choice(['None', '0', '1', 'True', "'spam'", "'0.5'", "b'x'", '()', '[]', 'object()', 'Classification', '1j', '3']))


def run_case(case):
    v = eval(case['v'], {'Classification': Classification})
    for before in (None, Classification.ham, Classification.spam, Classification.unsure):
        m = message.from_string('Subject: x\n\nbody\n')
        m.c = before
        text0 = m.as_string()
        r = exc = None
        try: r = m.set_classification(v)
        except Exception as e: exc = e
        if isinstance(v, Classification): want = v
        elif isinstance(v, float): want = Classification.ham if v < 0.2 else Classification.spam if v > 0.9 else Classification.unsure
        else:
            if exc is None: return '%s was not refused' % case['v']
            if m.classification() is not before: return 'refusing %s changed %r to %r' % (case['v'], before, m.classification())
            continue
        if exc is not None: return '%s raised %r' % (case['v'], exc)
        if m.classification() is not want: return '%s: %r, expected %r' % (case['v'], m.classification(), want)
        if r is not want: return '%s: returned %r' % (case['v'], r)
        if m.as_string() != text0 or m.id() is not None or m.is_trained() is not None: return '%s changed something else' % case['v']
    return None
