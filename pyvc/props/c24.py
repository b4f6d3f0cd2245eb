"""A message ID is set once."""
from .lib import *
from .msglib import *
from sbclassifier.message import STATS_START_KEY, STATS_STORAGE_KEY, MAILID_HEADER_NAME

ASSUMPTIONS = [
    'no other code assigns the attribute messageid; unpickling (__setstate__) makes a message, it is not an operation on one',
    'texts are strings of any characters; their comparison is that of the theory of strings',
    'the ID header of a message, if it is there, is plain text',
]
TRUSTED = TRUSTED_MESSAGE

RESERVED = ('Statistics start date', 'Persistent statistics')


def is_text(v): return isinstance(v, str) or isinstance(v, SStr) and v.kind is str


def allowed(v):
    """Formula: v may be an ID."""
    if not is_text(v): return z3.BoolVal(False)
    return z3.And([ops.strterm(v) != z3.StringVal(r) for r in RESERVED])


VALUES = [('a text', lambda: text('new')), ('the empty text', lambda: ''), ('a reserved text', lambda: RESERVED[0]), ('the other reserved text', lambda: RESERVED[1]),
          ('nothing', lambda: None), ('an integer', lambda: SInt(z3.Int('k'))), ('zero', lambda: 0), ('False', lambda: False),
          ('bytes', lambda: SStr(z3.String('raw'), bytes)), ('a tuple', lambda: ()), ('a list', lambda: PyList([])), ('another object', lambda: Opaque('object'))]


def start(vc, had, items=None):
    mid = None
    if had:
        mid = text('id')
        vc.assume(allowed(mid))
    m = sym_message(vc, [Stretch('headers', ())] if items is None else items, messageid=mid, c=Opaque('c'), t=Opaque('t'))
    return m


def invariant(vc, m):
    v = force(m.fields['messageid'])
    vc.prove('the ID is a text that is not reserved', v is None or allowed(v))


def after(vc, m, had, v, exc, what=''):
    """The effect of an attempt to set the ID to v."""
    if not had:
        ok = allowed(v)
        if exc is None:
            vc.prove(what + 'an allowed value', ok)
            vc.prove(what + 'it is the ID', same_value(m.fields['messageid'], v))
        else:
            vc.prove(what + 'only what is not allowed is refused', z3.Not(ok))
            vc.prove(what + 'a refusal leaves no ID', m.fields['messageid'] is None)
    else:
        old = m.start['messageid']
        same = same_value(old, v)
        vc.prove(what + 'the ID stays', same_value(m.fields['messageid'], old))
        vc.prove(what + 'refused unless it is the same', z3.BoolVal(exc is None) == (same if not isinstance(same, bool) else z3.BoolVal(same)))
    invariant(vc, m)


def set_id(had, what, make):
    def run(vc):
        m = start(vc, had)
        v = make()
        r, exc = vc.attempt(lambda: force(vc.method(m, 'set_id', v)))
        if exc is not None: vc.prove('an ordinary error', issubclass(exc.cls, Exception))
        after(vc, m, had, v, exc)
        frame(vc, m, but=('messageid',))
        vc.prove('headers stay', same_items(m.start_items, m.fields['_headers'].items))
        q, exc = vc.attempt(lambda: force(vc.method(m, 'id')))
        vc.prove('id() gives it', exc is None and same_value(q, m.fields['messageid']))
        vc.cover('end')
    return dict(name='set_id of a message %s an ID: %s' % ('with' if had else 'without', what), fn=run, covers=['end'])


def from_payload(had, header):
    def run(vc):
        h = text('header') if header else None
        items = [Stretch('a', {MAILID_HEADER_NAME.lower()})] + ([Item(MAILID_HEADER_NAME, h)] if header else []) + [Stretch('b', {MAILID_HEADER_NAME.lower()} if not header else ())]
        m = start(vc, had, items)
        r, exc = vc.attempt(lambda: force(vc.method(m, 'set_id_from_payload')))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        old, now = m.start['messageid'], m.fields['messageid']
        if had: vc.prove('the ID stays', same_value(now, old))
        else: vc.prove('the ID of the header, if that is allowed', z3.If(allowed(h), same_f(now, h), z3.BoolVal(now is None)) if header else now is None)
        invariant(vc, m)
        frame(vc, m, but=('messageid',))
        vc.prove('headers stay', same_items(m.start_items, m.fields['_headers'].items))
        vc.cover('end')
    return dict(name='set_id_from_payload, %s ID, %s header' % ('with' if had else 'no', 'with' if header else 'no'), fn=run, covers=['end'])


def same_f(a, b):
    r = same_value(a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def new(what, make):
    def run(vc):
        add_contracts(vc)
        v = make()
        m, exc = vc.attempt(lambda: vc.call(Message, v))
        if exc is None and v is None: vc.prove('no ID', m.fields['messageid'] is None)
        elif exc is None:
            vc.prove('an allowed value', allowed(v))
            vc.prove('it is the ID', same_value(m.fields['messageid'], v))
        else: vc.prove('only what is not allowed is refused', z3.Not(allowed(v)) if v is not None else False)
        vc.cover('end')
    return dict(name='a new message with ID: %s' % what, fn=run, covers=['end'])


def other(name, *args):
    def run(vc):
        m = start(vc, True)
        r, exc = vc.attempt(lambda: vc.method(m, name, *args))
        vc.prove('no exception', exc is None)
        vc.prove('the ID stays', same_value(m.fields['messageid'], m.start['messageid']))
        vc.cover('end')
    return dict(name='%s(%s) and the ID' % (name, ', '.join(map(repr, args))), fn=run, covers=['end'])


def targets(tier):
    from .c22 import add
    from .c23 import remove
    return ([add('to', True, True, ''), add('to', False, False, ''), remove('to', True, True, False), remove('to', True, True, True)] + [set_id(h, *v) for h in (False, True) for v in VALUES] + [from_payload(h, x) for h in (False, True) for x in (False, True)] +
            [new(*v) for v in VALUES] +
            [other('set_classification', 0.5), other('remember_trained', True), other('remember_trained', None), other('is_trained'), other('classification')])


# ---------------------------------------------------------------- the real code

def cases(rng):
    vals = ["'a'", "'b'", "''", "'Statistics start date'", "'Persistent statistics'", 'None', '0', '5', 'False', "b'a'", "b''", '()', '[]', "['a']", 'object()', 'str', '1.5', "'a\\n'", "'\\udc80'", "'é'"]
    while True:
        steps = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            r = rng.random()
            v = rng.choice(vals if r < 0.6 else vals[:3])
            steps.append(rng.choice([['set_id', v], ['set_id', v], ['set_id', v], ['payload'], ['header', v], ['classify'], ['add'], ['remove'], ['trained'], ['render'], ['notate']]))
        yield dict(new=rng.choice(['None', 'None', 'None', rng.choice(vals)]), header=rng.choice([None, None, 'a', 'b', 'Statistics start date', '', 'h']), steps=steps)


def run_case(case):
    def ok(v): return isinstance(v, str) and v not in RESERVED
    v = eval(case['new'])
    src = 'Subject: x\n' + ('%s: %s\n' % (MAILID_HEADER_NAME, case['header']) if case['header'] is not None else '') + '\nbody\n'
    for make in (lambda: message.from_string(src, v), lambda: message.from_bytes(src.encode(), v), lambda: Message(v)):
        try: m = make()
        except Exception as e:
            if v is None or ok(v): return 'a new message with ID %s raised %r' % (case['new'], e)
            continue
        if v is not None and not ok(v): return 'a new message has ID %r' % (m.id(),)
        cur = v
        if m.id() != cur: return 'a new message has ID %r, not %r' % (m.id(), cur)
        for s in case['steps']:
            try:
                r = exc = None
                if s[0] == 'set_id':
                    w = eval(s[1])
                    try: m.set_id(w)
                    except Exception as e: exc = e
                    if cur is None:
                        if ok(w) != (exc is None): return 'set_id(%s) of a message without ID: %r' % (s[1], exc)
                        if ok(w): cur = w
                    elif (type(w) is type(cur) and w == cur) != (exc is None): return 'set_id(%s) of a message with ID %r: %r' % (s[1], cur, exc)
                elif s[0] == 'payload':
                    h = m[MAILID_HEADER_NAME]
                    try: m.set_id_from_payload()
                    except TypeError:
                        if isinstance(h, str) or h is None: raise
                    if cur is None and isinstance(h, str) and ok(h): cur = h
                elif s[0] == 'header':
                    w = eval(s[1])
                    if isinstance(w, str) and m[MAILID_HEADER_NAME] is None and '\n' not in w and '\udc80' not in w: m[MAILID_HEADER_NAME] = w
                elif s[0] == 'classify': m.set_classification(0.3)
                elif s[0] == 'add': m.add_sb_headers(0.5, [('a', 0.5)], add_unique_id=cur is not None)
                elif s[0] == 'remove': m.remove_sb_headers()
                elif s[0] == 'trained': m.remember_trained(True)
                elif s[0] == 'notate':
                    m.set_classification(0.95)
                    m.add_notations(tuple(Classification), tuple(Classification))
            except Exception as e: return 'step %r raised %r' % (s, e)
            if type(m.id()) is not type(cur) or m.id() != cur: return 'after %r the ID is %r, not %r' % (s, m.id(), cur)
    return None
