"""The score is the chi-squared combination of the clues."""
from .scoring import *
from ..models import LN, EXP
from . import ref as R_
from . import c03

ASSUMPTIONS = [
    'floating-point arithmetic is real arithmetic in the proof of the formula (the proof that the products never underflow uses rounded arithmetic)',
    'ln(x*y) = ln(x) + ln(y) and ln(m * 2**e) = ln(m) + e * LN2 for positive numbers; ln(1) = 0; LN2 is ln(2)',
    'a sum does not depend on the order of its terms',
    'tokens are opaque hashable values with a total order among themselves; one thread',
] + c03.ASSUMPTIONS[:3]


def chi2q():
    """chi2Q(x, v) is min(1, sum over i < v/2 of T(i)) where T(0) = exp(-x/2)
    and T(i) = T(i-1) * (x/2)/i."""
    def run(vc):
        cx = vc.cx
        x, v = z3.Real('x2'), z3.Int('v')
        cx.assume(z3.And(x >= 0, v >= 0))
        E = z3.Real('exp0')
        cx.assume(z3.And(E >= 0, E <= 1))
        T = z3.Function('T', I, R)
        T1 = z3.Function('T1', I, R)        # without the factor exp(-x/2)
        SUM = z3.Function('SUM', I, R)
        SUM1 = z3.Function('SUM1', I, R)
        m = x / 2
        def exp(interp, t):
            vc.prove('the exponent is -x/2', t == -x / 2)
            return SReal(E)
        cx.ghost['exp'] = exp
        seen = set()
        def define(i):
            i = z3.simplify(i)
            if i.get_id() in seen: return
            seen.add(i.get_id()); keep.append(i)
            q = m / z3.ToReal(i)
            for t, s, c in ((T, SUM, E), (T1, SUM1, z3.RealVal(1))):
                cx.assume(t(z3.IntVal(0)) == c)
                cx.assume(s(z3.IntVal(0)) == 0)
                cx.assume(z3.Implies(i >= 1, t(i) == t(i - 1) * q))
                cx.assume(z3.Implies(i >= 0, s(i + 1) == s(i) + t(i)))
                cx.assume(z3.Implies(i >= 1, s(i) == s(i - 1) + t(i - 1)))
        keep = []
        def inv(loop):
            k = loop.k
            for c in (0, 1, 2): define(k + c)
            out = []
            for o, what, val in loop.locals():
                if not isinstance(val, (SReal, float, int)): continue
                t = ops.toreal(val)
                nm = '%s.%s' % (o.name, what)
                for f, g in ((T, 'T'), (SUM, 'SUM'), (T1, 'T/E'), (SUM1, 'SUM/E')):
                    for c in (0, 1, 2): out.append(('%s is %s(k+%d)' % (nm, g, c), t == f(z3.simplify(k + c))))
            return out
        vc.invariants(inv)
        from sbclassifier.classifiers import basic
        q, exc = vc.attempt(lambda: vc.call(basic.chi2Q, SReal(x), SInt(v)))
        odd = v % 2 != 0
        if exc is not None:
            vc.prove('ValueError only for an odd number of degrees', z3.And(z3.BoolVal(exc.cls is ValueError), odd))
            vc.cover('odd')
            return
        vc.prove('an odd number of degrees is refused', z3.Not(odd))
        h = v / 2
        def goal():
            define(h); define(h - 1)
            s = SUM(z3.simplify(h))
            return z3.Implies(v >= 2, ops.toreal(q) == z3.If(s < 1, s, 1))
        vc.prove('min(1, exp(-x/2) * sum of (x/2)^i/i!)', goal)
        vc.cover('end')
    return dict(name='chi2Q', fn=run, covers=['end', 'odd'])


def first_real(v):
    for x in v:
        x = force(x)
        if isinstance(x, SReal): return x.t
    raise Unsupported('a clue without a probability')


def combination(evidence, make=sym_classifier):
    def run(vc):
        cx = vc.cx
        sc = Scoring(vc, make=make, chi_pre=lambda x, v: z3.And(v >= 2))
        ln2 = realval(__import__('math').log(2))
        cx.assume(LN(z3.RealVal(1)) == 0)
        def product(x, y, r):
            cx.assume(z3.Implies(z3.And(x > 0, y > 0), z3.And(r > 0, LN(r) == LN(x) + LN(y))))
        cx.ghost['product'] = product
        def frexp(interp, x):
            m, e = cx.fresh('mant', R), cx.fresh('exp', I)
            cx.assume(z3.Implies(x > 0, z3.And(m >= z3.Q(1, 2), m < 1, LN(x) == LN(m) + z3.ToReal(e) * ln2)))
            return SReal(m), SInt(e)
        cx.ghost['frexp'] = frexp
        sums = cx.ghost.setdefault('sums', [])
        def sums_of(it):
            probe = z3.Int('sumprobe')
            p = first_real(it.elem(probe))
            for q, it0, S, H in sums:
                if q.eq(p): return S, H
            nm = len(sums)
            S = z3.Function('sumln1p%d' % nm, I, R)
            H = z3.Function('sumlnp%d' % nm, I, R)
            cx.assume(z3.And(S(z3.IntVal(0)) == 0, H(z3.IntVal(0)) == 0))
            sums.append((p, it, S, H))
            return S, H
        def extra(loop):
            if loop.kind != 'seq' or loop.it is None: return []
            try: S, H = sums_of(loop.it)
            except (Unsupported, TypeError): return []
            k = loop.k
            if not z3.is_add(k):
                p = first_real(loop.it.elem(k))
                inr = z3.And(k >= 0, k < loop.it.n)
                cx.assume(z3.Implies(inr, z3.And(S(z3.simplify(k + 1)) == S(k) + LN(1 - p), H(z3.simplify(k + 1)) == H(k) + LN(p))))
            out = []
            reals, ints = [], []
            for o, what, v in loop.locals():
                nm = what
                if isinstance(v, (SReal, float)): reals.append((nm, ops.toreal(v)))
                elif isinstance(v, (SInt, int)) and not isinstance(v, bool):
                    reals.append((nm, z3.ToReal(ops.intterm(v))))
                    ints.append((nm, z3.ToReal(ops.intterm(v))))
            for nm, t in reals:
                for g, F in (('sum of ln(1-p)', S), ('sum of ln(p)', H)):
                    out.append(('%s is the %s' % (nm, g), t == F(k)))
                    out.append(('ln %s is the %s' % (nm, g), LN(t) == F(k)))
                    for em, e in ints:
                        out.append(('ln %s + %s * ln 2 is the %s' % (nm, em, g), LN(t) + e * ln2 == F(k)))
            return out
        sc.invariants(extra)
        r, exc = sc.run(evidence)
        vc.prove('no exception', exc is None)
        if exc is not None: return
        if evidence: score, E, n, clue = evidence_parts(r)
        else: score = force(r)
        if len(sums) != 1: raise Unsupported('%d lists of clues' % len(sums))
        p0, it, S, H = sums[0]
        N = it.n
        SS = 1 - QF(-2 * S(N), 2 * N)
        HH = 1 - QF(-2 * H(N), 2 * N)
        t = ops.toreal(score)
        vc.prove('the score is (S - H + 1)/2', z3.Implies(N >= 1, t == (SS - HH + 1) / 2))
        if not evidence:
            vc.cover('end')
            return
        vc.prove('every clue is combined', n == N)
        e0, e1 = E.get(z3.IntVal(0)), E.get(z3.IntVal(1))
        def label(e, name):
            x = force(e[0])
            return z3.BoolVal(x == name) if isinstance(x, (str, bytes)) else tokterm(x) == keyterm(name)
        vc.prove('H and S come first', z3.And(label(e0, b'*H*'), label(e1, b'*S*')))
        vc.prove('their values', z3.Implies(N >= 1, z3.And(realterm(e0[1]) == HH, realterm(e1[1]) == SS)))
        inr = lambda i: z3.And(i >= 0, i < n)
        vc.prove('by increasing probability', lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i < j), clue(i)[1] <= clue(j)[1]), (I, I))
        def combined(i):
            w, p = clue(i)
            # the position of this clue among those combined
            js = [z3.simplify(x) for x in positions(vc, w)]
            alts = []
            for j in js:
                e = it.elem(j)
                alts.append(z3.And(j >= 0, j < N, first_real(e) == p))
            return z3.Implies(inr(i), z3.Or(alts)) if alts else z3.Not(inr(i))
        vc.prove('every clue listed is one that was combined', combined, I)
        vc.cover('end')
    return dict(name='spamprob%s' % (' with evidence' if evidence else ''), fn=run, covers=['end'])


def positions(vc, w):
    cx = vc.cx
    follow(vc, w, 2)
    return [x for x in cx.universe.get(IDX, ())][-12:]


def targets(tier):
    t = c03.scoring(True)
    t['name'] = 'spamprob does not underflow'
    return [chi2q(), combination(False), combination(True), t]


def cases(rng):
    import random
    while True:
        if rng.random() < 0.3:
            yield dict(kind='chi2Q', x=rng.choice([0.0, rng.random(), rng.uniform(0, 50), rng.uniform(0, 2000), 10 ** rng.uniform(-12, 4)]),
                       v=rng.choice([2, 4, 6, 2 * rng.randint(1, 150), 2 * rng.randint(1, 20), 3, 7]))
        else: yield dict(kind='score', case=R_.scoring_case(rng))


def close(a, b, tol=1e-9): return abs(a - b) <= tol


def run_case(case):
    if case['kind'] == 'chi2Q':
        from sbclassifier.classifiers.basic import chi2Q
        x, v = case['x'], case['v']
        try: q = chi2Q(x, v)
        except ValueError as e:
            return None if v % 2 else 'chi2Q(%r, %r) raised %r' % (x, v, e)
        except Exception as e: return 'chi2Q(%r, %r) raised %r' % (x, v, e)
        if v % 2: return 'chi2Q(%r, %r) accepts an odd number of degrees' % (x, v)
        want = R_.logchi2q(x, v // 2)
        if not close(q, want): return 'chi2Q(%r, %r) is %r, expected %r' % (x, v, q, want)
        return None
    clf, tokens = R_.scoring_setup(case['case'])
    it = case['case']['it']
    try:
        s1 = clf.spamprob(R_.stream(tokens, it))
        s, ev = clf.spamprob(R_.stream(tokens, it), True)
        s3 = clf.spamprob(R_.stream(tokens, it))
    except Exception as e: return 'spamprob raised %r' % (e,)
    if not (close(s, s1) and close(s, s3)): return 'the score is %r with evidence and %r, %r without' % (s, s1, s3)
    if [e[0] for e in ev[:2]] != [b'*H*', b'*S*']: return 'the evidence starts with %r' % (ev[:2],)
    ps = [p for w, p in ev[2:]]
    if ps != sorted(ps): return 'the evidence is not in order of probability'
    if ps:
        want, H, S = R_.score(ps)
        if not close(s, want, 1e-6): return 'the score is %r, expected %r' % (s, want)
        if not (close(ev[0][1], H, 1e-6) and close(ev[1][1], S, 1e-6)): return 'H, S are %r, %r, expected %r, %r' % (ev[0][1], ev[1][1], H, S)
    return None
