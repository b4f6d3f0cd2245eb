"""Removing the result headers undoes adding them."""
from .lib import *
from .msglib import *
from .. import models
from sbclassifier.message import *

ASSUMPTIONS = [
    'recipient and subject are plain texts: values as the policy compat32 gives them for headers without bytes above 127',
    'the message has no result headers of its own before',
    'floats are taken as real numbers',
]
TRUSTED = TRUSTED_MESSAGE

def undo(first, c, note_to, note_subject):
    """Removing from what adding leaves (see the targets of add_sb_headers)."""
    def run(vc):
        items, t, s = letters(first)
        vc.assume(z3.Not(starts(t, TO_NOTES)))
        vc.assume(z3.Not(starts(s, SUBJECT_NOTES)))
        after = []
        for x in items:
            if isinstance(x, Item):
                note = c.name + '@spambayes.invalid,' if x.lname == 'to' else c.name + ','
                if note_to if x.lname == 'to' else note_subject: x = Item(x.name, SStr(z3.Concat(z3.StringVal(note), x.value.t), str), x.lname)
            after.append(x)
        others = Stretch('result headers', {'to', 'subject'}, only=SB)
        m = sym_message(vc, after + [others], messageid=text('id'), c=c)
        r, exc = vc.attempt(lambda: vc.method(m, 'remove_sb_headers'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        vc.prove('the headers from before', same_items(items, m.fields['_headers'].items))
        frame(vc, m)
        vc.cover('end')
    return dict(name='removing, %s first, %s, %s recipient, %s subject' % (first, c.name, 'noted' if note_to else 'plain', 'noted' if note_subject else 'plain'), fn=run, covers=['end'])


def remove(first, has_to, has_subject, result):
    def run(vc):
        items, t, s = letters(first, has_to, has_subject)
        if result:
            items = [Stretch('before', set(SB) | {'to', 'subject'}), Item('X-SpamBayes-Classification', text('sbc'))] + items + [Item('x-spambayes-mailid', text('sbi'))]
            items[-2] = Stretch(items[-2].label, items[-2].without - {'x-spambayes-level'})
        m = sym_message(vc, items, messageid=text('id'), c=Opaque('c'), t=Opaque('t'))
        ro, rs = SBool(z3.Bool('remove_to')), SBool(z3.Bool('remove_subject'))
        name = 'remove_sb_headers' if result else 'remove_notations'
        r, exc = vc.attempt(lambda: vc.method(m, name, remove_to_notations=ro, remove_subject_notations=rs))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        def cut(v, notes, option):
            out = v.t
            for n in notes: out = z3.If(z3.PrefixOf(z3.StringVal(n), v.t), z3.SubString(v.t, len(n), z3.Length(v.t) - len(n)), out)
            return SStr(z3.If(option.t, out, v.t), str)
        want = []
        for x in items:
            if isinstance(x, Stretch):
                missing = [n for n in SB if n not in x.without]
                for n in missing: x = Stretch('%s without %s' % (x.label, n), x.without | {n})
            elif result and x.lname in SB: continue
            elif x.lname == 'to': x = Item(x.name, cut(t, TO_NOTES, ro), 'to')
            elif x.lname == 'subject': x = Item(x.name, cut(s, SUBJECT_NOTES, rs), 'subject')
            want.append(x)
        vc.prove('each option removes at most one notation of its header, nothing else changes', same_items(want, m.fields['_headers'].items))
        vc.prove('a message without notations is not changed',
                 z3.Implies(z3.And(z3.Not(starts(t, TO_NOTES)), z3.Not(starts(s, SUBJECT_NOTES))), as_f(same_items(m.start_items, m.fields['_headers'].items))) if not result else True)
        frame(vc, m)
        vc.cover('end')
    return dict(name='%s, %s first, %s recipient, %s subject' % ('remove_sb_headers' if result else 'remove_notations', first, 'with' if has_to else 'no', 'with' if has_subject else 'no'), fn=run, covers=['end'])


def as_f(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def targets(tier):
    from .c22 import add
    return ([add(f, True, True, e) for e in ('', 'any') for f in ('to', 'subject')] +
            [undo(f, c, a, b) for f in ('to', 'subject') for c in Classification for a in (False, True) for b in (False, True)] +
            [remove(f, a, b, r) for r in (False, True) for f, a, b in (('to', True, True), ('subject', True, True), ('to', True, False), ('to', False, True), ('to', False, False))])


# ---------------------------------------------------------------- the real code

from . import ref as R_


def cases(rng): return R_.header_cases(rng)


def run_case(case): return R_.check_undone(case)
