"""Contracts for scoring, shared by C03 to C07."""
from .lib import *
from ..core import term
from .. import models

MOD = 'sbclassifier.classifiers.basic:'
S_ = realval(0.45)                 # the doubles nearest to 0.45 and 0.225
SX = realval(0.225)
NEAR = z3.Q(1, 10)
HALF = z3.Q(1, 2)
TENTH = realval(0.1)               # the double nearest to 0.1
PF = z3.Function('prob', I, I, R)  # probability of a record of (spam, ham) counts
QF = z3.Function('chi2Q', R, I, R)
DELTA = z3.RealVal(1) / z3.RealVal(2 ** 44)


def valid_counts(s, h, ns, nh):
    return z3.And(s >= 0, h >= 0, s + h >= 1, s <= ns, h <= nh)


def one(n): return z3.If(n == 0, z3.IntVal(1), n)


def formula(p, s, h, ns, nh):
    """p is the probability of the property, as a polynomial relation."""
    # r = (s/NS) / (h/NH + s/NS) = s*NH / (h*NS + s*NH)
    NS, NH = z3.ToReal(one(ns)), z3.ToReal(one(nh))
    s, h = z3.ToReal(s), z3.ToReal(h)
    n = s + h
    num = s * NH
    den = h * NS + s * NH
    return p * (S_ + n) * den == SX * den + n * num


def spec_prob(s, h, ns, nh):
    NS, NH = z3.ToReal(one(ns)), z3.ToReal(one(nh))
    s, h = z3.ToReal(s), z3.ToReal(h)
    n = s + h
    sr, hr = s / NS, h / NH
    return (SX + n * (sr / (hr + sr))) / (S_ + n)


def prob_contract(vc, post=lambda p: None):
    """Contract of Classifier.probability, at the totals of the given state.

    pre: the counts of the record are valid for the totals
    post: the result is prob(spamcount, hamcount), with the facts `post`

    """
    def h(interp, args, kw):
        cx = vc.cx
        self, rec = args[0], force(args[1])
        s = ops.intterm(interp.getattr_(rec, 'spamcount'))
        hh = ops.intterm(interp.getattr_(rec, 'hamcount'))
        ns, nh = ops.intterm(self.fields['nspam']), ops.intterm(self.fields['nham'])
        if not cx.branch(valid_counts(s, hh, ns, nh)):
            raise PyRaise(ExcVal(Exception, ('the precondition of probability() does not hold',)))
        p = PF(s, hh)
        f = post(p)
        if f is not None: cx.assume(f)
        return SReal(p)
    vc.i.overrides[MOD + 'Classifier.probability'] = h


def chi2_contract(vc, post=None, pre=None):
    def h(interp, args, kw):
        cx = vc.cx
        names = ['x2', 'v']
        a = dict(zip(names, args)); a.update(kw)
        x, v = ops.toreal(force(a['x2'])), ops.intterm(force(a['v']))
        if not cx.branch(v % 2 == 0): raise PyRaise(ExcVal(ValueError, ()))
        if pre is not None: vc.prove('precondition of chi2Q', pre(x, v))
        q = QF(x, v)
        cx.assume(z3.And(q >= 0, q <= 1))
        return SReal(q)
    vc.i.overrides[MOD + 'chi2Q'] = h


class Scoring:
    """A symbolic classifier that satisfies its invariant, a token stream, and
    the contracts of the callees."""
    def __init__(self, vc, make=sym_classifier, post=lambda p: z3.And(p > 0, p < 1), chi_pre=None, bigrams=False, stream=words_stream, **fields):
        self.vc = vc
        self.clf = make(vc, bigrams=bigrams, **fields)
        self.st0 = State(vc.cx, self.clf)
        self.ws, self.mem, self.n, self.at = stream(vc)
        assume_inv(vc, clf_invariant(self.st0))
        if 'db' in self.clf.fields:
            from . import shelf
            shelf.get_contract(vc, self.clf, self.st0)
        self.post = post
        prob_contract(vc, post)
        if post is not None:
            # the contract, for the counts of every known word
            vc.fact(Tok, lambda w: z3.Implies(self.st0.dom(w), post(PF(self.st0.spam(w), self.st0.ham(w)))), 'probability')
        chi2_contract(vc, pre=chi_pre)

    def known(self, w): return self.st0.dom(w)

    def p(self, w):
        """The probability of a word, by its counts in the starting state."""
        st = self.st0
        return z3.If(st.dom(w), PF(st.spam(w), st.ham(w)), HALF)

    def dist(self, w):
        p = self.p(w)
        return z3.If(p >= HALF, p - HALF, HALF - p)

    def invariants(self, extra=None):
        def f(loop):
            out = []
            for i, (o, what, v) in enumerate(loop.locals()):
                v = v if not isinstance(v, SAlt) else None
                nm = '%s.%s' % (o.name, what)
                if isinstance(v, (SReal, float)):
                    t = ops.toreal(v)
                    out += [(nm + ' positive', t > 0), (nm + ' at most 1', t <= 1)]
                    out += [(nm + ' not small', t >= realval(1e-200))]
                elif isinstance(v, (SInt, int)) and not isinstance(v, bool):
                    t = ops.intterm(v)
                    out += [(nm + ' at most 0', t <= 0)]
            if extra: out += list(extra(loop))
            return out
        self.vc.invariants(f)

    def run(self, evidence=True):
        return self.vc.attempt(lambda: self.vc.method(self.clf, 'spamprob', self.ws, evidence))


def tokterm(v):
    """The term of a word, without branching."""
    if isinstance(v, SAlt):
        r = tokterm(v.alts[-1][1])
        for g, w in reversed(v.alts[:-1]): r = z3.If(g, tokterm(w), r)
        return r
    return keyterm(v)


def realterm(v):
    if isinstance(v, SAlt):
        r = realterm(v.alts[-1][1])
        for g, w in reversed(v.alts[:-1]): r = z3.If(g, realterm(w), r)
        return r
    return ops.toreal(v)


def evidence_parts(r):
    """(score term, list E, number of clues, i -> (word term, prob term))"""
    score, E = force(r[0]), force(r[1])
    n = z3.simplify(E.length() - 2)
    def clue(i):
        e = E.get(z3.simplify(i + 2))
        w, p = tokterm(e[0]), realterm(e[1])
        core.cx().register(w)
        return w, p
    return score, E, n, clue


def follow(vc, t, rounds=3):
    """Registers the positions of an element in the lists it may have gone
    to: through sorting, and through the shifts of cut lists."""
    cx = vc.cx
    frontier = [t]
    for _ in range(rounds):
        new = []
        for x in frontier:
            for idx, base, pkey in cx.ghost.get('enums', ()):
                if x.sort() != base: continue
                u = idx(x)
                cx.register(u, pkey)
                new.append(u)
                for m in cx.ghost.get('reversals', ()): new.append(z3.simplify(m - 1 - u))
                for cnt, a in cx.ghost.get('shifts', ()):
                    c = z3.simplify(cnt)
                    if z3.is_int_value(c) and c.as_long() == 0: continue
                    new.append(z3.simplify(u - cnt))
        for u in new: cx.register(u, IDX)
        frontier = new


def first_elements(vc):
    """Registers what comes first in each list, before and after cuts."""
    cx = vc.cx
    at = [z3.IntVal(0)] + [z3.simplify(cnt) for cnt, a in cx.ghost.get('shifts', ())]
    for i in at: cx.register_index(i)
    for idx, base, pkey in list(cx.ghost.get('enums', ())):
        src = z3.Function(pkey[len('perm:'):], I, base)
        for i in at:
            if base != I: cx.register(src(i))
            else: cx.register_index(src(i))
            cx.register(i, pkey)


# ---------------------------------------------------------------- the cache

def cache_fields(vc, clf):
    pc = clf.fields.get('_probcache')
    if not isinstance(pc, PyDict): raise Unsupported('the probability cache is no dictionary')
    return pc


def cached(pc, s, h):
    """(in the cache, value) for a pair of counts."""
    inner = pc.val(s) if pc.symbolic or pc.items else None
    if inner is None: return z3.BoolVal(False), z3.RealVal(0)
    if isinstance(inner, SAlt): raise Unsupported('cache of alternatives')
    d = z3.And(pc.dom(s), inner.dom(h))
    if not inner.symbolic and not inner.items: return z3.BoolVal(False), z3.RealVal(0)
    return d, realterm(inner.val(h))


def valid_cache(pc, ns, nh, good):
    """Every entry for counts that are possible is the right one."""
    def f(s, h):
        d, p = cached(pc, s, h)
        return z3.Implies(z3.And(d, valid_counts(s, h, ns, nh)), good(p, s, h))
    return f


def assume_valid_cache(vc, clf, good):
    """The cache of a symbolic classifier, restricted to valid content (by
    wrapping its value closures, so that it holds for every pair looked up)."""
    cx = vc.cx
    pc = cache_fields(vc, clf)
    ns, nh = ops.intterm(clf.fields['nspam']), ops.intterm(clf.fields['nham'])
    val0 = pc._val
    def val(s):
        inner = val0(s)
        v0, d0 = inner._val, inner._dom
        def iv(h):
            p = v0(h)
            cx.assume(z3.Implies(z3.And(pc0(s), d0(h), valid_counts(s, h, ns, nh)), good(p.t, s, h)))
            return p
        return PyDict(dom=d0, val=memo1(iv), site='inner', sort=I)
    pc0 = pc._dom
    pc._val = memo1(val)
