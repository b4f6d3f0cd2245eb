"""The headers added tell the result."""
from .lib import *
from .msglib import *
from .. import models

ASSUMPTIONS = [
    'the message carries no result headers before (new, or after removal); its recipient and subject are plain texts',
    'floats are taken as real numbers: 10 * p and 1 - cutoff are exact, and the decimal text of a number is an '
    'uninterpreted function of the number and the digits',
    'clues are pairs of a word (str or bytes) and a number',
]
TRUSTED = TRUSTED_MESSAGE + ['the texts made by % formatting, repr() and email.header.Header.encode(): functions of the values']

STAR = z3.StringVal('*')


class Clues:
    def __init__(self, vc):
        cx = vc.cx
        self.n = z3.Int('n_clues')
        vc.assume(self.n >= 0)
        self.w = z3.Function('clue_word', I, Tok)
        self.p = z3.Function('clue_score', I, z3.RealSort())
        self.list = PyList(n=self.n, get=memo1(lambda i: (STok(self.w(i)), SReal(self.p(i)))), site='clues')
        self.cutoff = z3.Real('cutoff')
        self.C = z3.Function('kept_before', I, I)
        cx.assume(self.C(z3.IntVal(0)) == 0)
        def step(i):
            return z3.And(z3.Implies(i >= 0, self.C(i + 1) == self.C(i) + z3.If(self.kept(i), 1, 0)), z3.Implies(i >= 1, self.C(i) == self.C(i - 1) + z3.If(self.kept(i - 1), 1, 0)),
                          self.C(i) >= 0)
        cx.add_fact(IDX, step, 'number of clues listed')

    def kept(self, i):
        w = self.w(i)
        return z3.Or(w == keyterm(b'*H*'), w == keyterm(b'*S*'), self.p(i) <= self.cutoff, self.p(i) >= 1 - self.cutoff)

    def text(self, i):
        w = self.w(i)
        return z3.Concat(z3.If(istext(w), reprtext(rfc2047(w)), reprof(w)), z3.StringVal(': '), fixed(z3.IntVal(2), self.p(i)))


def evidence_invariants(vc, clues):
    """Lists grow by one text for each clue listed; then by two parts for each."""
    cx = vc.cx
    def str_list(l):
        try: v = force(l.get(z3.IntVal(0))) if l.symbolic else (force(l.items[0]) if l.items else None)
        except Unsupported: return False
        return v is None or isinstance(v, (str, SStr))
    def inv(loop):
        out = []
        if loop.kind != 'seq': return out
        k = loop.k
        for o, what, shape in loop.objects():
            if not isinstance(o, PyList) or not str_list(o): continue
            nm = 'list%s' % (o.oid,)
            C = clues.C
            n = o.length()
            raw = ops.snapshot_list(o)          # the list now, whenever the formulas are instantiated
            sized = o.symbolic or bool(o.items)
            get = lambda i, raw=raw: ops.strterm(force(raw(i)))
            out += [('%s: one text for each clue listed' % nm, n == C(k)),
                    ('%s: counts' % nm, I, lambda j: z3.Implies(z3.And(j >= 0, j < k, clues.kept(j)), C(j) + 1 <= C(k))),
                    ('%s: its text' % nm, I, lambda j, sized=sized, get=get: z3.Implies(z3.And(j >= 0, j < k, clues.kept(j)), get(reg(C(j))) == clues.text(j)) if sized else None)]
            m = loop.it.n if loop.it is not None else None
            if m is None: continue
            e = loop.it.elem
            def part(i):
                v = e(i)
                v = v[0] if isinstance(v, tuple) else v
                v = force(v)
                return ops.strterm(v) if isinstance(v, (str, SStr)) else None
            def first(j, sized=sized, get=get):
                if not sized or part(j) is None: return None
                return z3.Implies(z3.And(j >= 0, j < k), get(reg(2 * j)) == part(j))
            def second(j, sized=sized, get=get):
                if not sized: return None
                x = get(reg(2 * j + 1))
                return z3.Implies(z3.And(j >= 0, j < k, j + 1 < m), z3.Or(x == z3.StringVal('; '), x == z3.StringVal(';\n\t')))
            out += [('%s: two parts each' % nm, n == 2 * k - z3.If(z3.And(k == m, m > 0), 1, 0)),
                    ('%s: first part' % nm, I, first), ('%s: second part' % nm, I, second)]
        return out
    def reg(t):
        t = z3.simplify(t)
        cx.register_index(t)
        return t
    vc.invariants(inv)
    joined = cx.ghost.setdefault('joined', {})
    def join(interp, sep, l):
        r = cx.fresh('joined', S)
        joined[r.get_id()] = (sep, PyList(n=l.length(), get=l._get, site='joined') if l.symbolic else l, r)
        return SStr(r, str)
    cx.ghost['join'] = join
    return reg


def add(first, has_to, has_subject, evidence):
    def run(vc):
        cx = vc.cx
        text_hooks(vc)
        log10_model(vc)
        items, t, s = letters(first, has_to, has_subject)
        mid = text('id')
        m = sym_message(vc, items, messageid=mid, c=Opaque('c'), t=Opaque('t'))
        p = z3.Real('p')
        vc.assume(z3.And(p >= 0, p <= 1))
        clues = Clues(vc)
        if evidence == 'listed': reg = evidence_invariants(vc, clues)
        elif evidence: cx.ghost['join'] = lambda interp, sep, l: SStr(cx.fresh('joined', S), str)
        o = {k: SBool(z3.Bool(k)) for k in ('include_thermostat', 'include_score', 'header_score_logarithm', 'add_unique_id')}
        digits = z3.Int('digits')
        vc.assume(digits >= 0)
        to, sub = Wanted('to'), Wanted('subject')
        if evidence == 'listed':       # the other options: see the targets without evidence
            o = dict(include_thermostat=False, include_score=False, header_score_logarithm=False, add_unique_id=False)
            to, sub = None, None
        r, exc = vc.attempt(lambda: vc.method(m, 'add_sb_headers', SReal(p), clues.list, header_score_digits=SInt(digits), include_evidence=bool(evidence),
                                              clue_mailheader_cutoff=SReal(clues.cutoff), notate_to=to, notate_subject=sub, **o))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        c = Classification.ham if cx.branch(p < realval(0.2)) else Classification.spam if cx.branch(p > realval(0.9)) else Classification.unsure
        now = m.fields['_headers'].items
        old, new = now[:len(items)], now[len(items):]
        want = []
        added = []
        for x in items:
            if not isinstance(x, Stretch) and to is not None:
                notate, note, v = (to, c.name + '@spambayes.invalid,', t) if x.lname == 'to' else (sub, c.name + ',', s)
                x = Item(x.name, SStr(z3.If(notate.b[c], z3.Concat(z3.StringVal(note), v.t), v.t), str), x.lname)
            want.append(x)
        vc.prove('other headers stay, recipient and subject change only if asked for', same_items(want, old))
        for x in new:
            vc.prove('a header is added at the end', isinstance(x, Item))
            if not isinstance(x, Item): return
            vc.prove('only result headers are added', x.lname in SB or (x.lname == 'to' and not has_to) or (x.lname == 'subject' and not has_subject))
        def one(lname, cond, check, what):
            xs = [x.value for x in new if x.lname == lname]
            vc.prove('%s: at most one' % what, len(xs) <= 1)
            if xs:
                vc.prove('%s: only if asked for' % what, cond)
                vc.prove('%s: its value' % what, check(force(xs[0])))
            else: vc.prove('%s: if asked for' % what, z3.Not(cond))
        asked = lambda name: o[name].t if isinstance(o[name], SBool) else z3.BoolVal(o[name])
        yes = z3.BoolVal(True)
        one('x-spambayes-classification', yes, lambda v: same_value(v, c.name), 'classification')
        one('x-spambayes-spam-probability', asked('include_score'), lambda v: is_score(v, digits, p, asked('header_score_logarithm')), 'score')
        one('x-spambayes-level', asked('include_thermostat'), lambda v: is_stars(v, p), 'level')
        one('x-spambayes-mailid', asked('add_unique_id'), lambda v: same_value(v, mid), 'ID')
        one('x-spambayes-trained', z3.BoolVal(False), lambda v: False, 'trained')
        one('x-spambayes-classification-id', z3.BoolVal(False), lambda v: False, 'classification ID')
        one('x-spambayes-evidence', z3.BoolVal(bool(evidence)), lambda v: True, 'evidence')
        if not has_to: one('to', to.b[c] if to else z3.BoolVal(False), lambda v: same_value(v, c.name + '@spambayes.invalid'), 'new recipient')
        if not has_subject: one('subject', sub.b[c] if sub else z3.BoolVal(False), lambda v: same_value(v, c.name), 'new subject')
        if evidence == 'listed': prove_evidence(vc, clues, [x.value for x in new if x.lname == 'x-spambayes-evidence'], reg)
        vc.prove('the classification', z3.BoolVal(m.fields['c'] is c) if not isinstance(m.fields['c'], SAlt) else z3.Or([g for g, w in m.fields['c'].alts if w is c]))
        frame(vc, m, but=('c',))
        vc.cover(c.name)
    return dict(name='add_sb_headers, %s, %s first, %s recipient, %s subject' % ({'listed': 'evidence alone', 'any': 'any evidence', '': 'no evidence'}[evidence], first, 'with' if has_to else 'no', 'with' if has_subject else 'no'),
                fn=run, covers=['ham', 'spam', 'unsure'])


def is_score(v, digits, p, log):
    if not isinstance(v, SStr): return False
    f = fixed(digits, p)
    return z3.If(log, z3.PrefixOf(f, v.t), v.t == f)


def is_stars(v, p):
    if isinstance(v, str): v = SStr(z3.StringVal(v), str)
    if not isinstance(v, SStr): return False
    return z3.And(z3.Length(v.t) == z3.ToInt(10 * p), z3.InRe(v.t, z3.Star(z3.Re(STAR))))


def prove_evidence(vc, clues, values, reg):
    cx = vc.cx
    v = force(values[0]) if values else None
    if isinstance(v, str):
        vc.prove('nothing listed', z3.And(z3.BoolVal(v == ''), clues.C(clues.n) == 0))
        return
    j = cx.ghost['joined'].get(v.t.get_id()) if isinstance(v, SStr) else None
    if j is None: raise Unsupported('the value of the evidence header')
    sep, l, _ = j
    if sep != '': raise Unsupported('evidence joined by %r' % (sep,))
    C = clues.C
    K = C(clues.n)
    reg(clues.n)
    vc.prove('as many parts as for the clues listed', l.length() == z3.If(K > 0, 2 * K - 1, 0))
    if not l.symbolic: return
    at = lambda i: ops.strterm(force(l.get(reg(i))))
    reg(clues.n - 1)
    vc.prove('every clue within the cutoff is listed, in order', lambda i: z3.Implies(z3.And(i >= 0, i < clues.n, clues.kept(i)), z3.And(2 * C(i) < l.length(), at(2 * C(reg(i))) == clues.text(i))), I)
    vc.prove('separators between', lambda i: z3.Implies(z3.And(i >= 0, i + 1 < K), z3.Or(at(2 * i + 1) == z3.StringVal('; '), at(2 * i + 1) == z3.StringVal(';\n\t'))), I)


def targets(tier):
    return ([add(f, a, b, e) for e in ('', 'any') for f, a, b in (('to', True, True), ('subject', True, True))] +
            [add(f, a, b, '') for f, a, b in (('to', True, False), ('to', False, True), ('to', False, False))] + [add('to', True, True, 'listed')])


# ---------------------------------------------------------------- the real code

from . import ref as R_


def cases(rng): return R_.header_cases(rng)


def run_case(case): return R_.check_added(case)
