"""Pair scoring tiles the message without overlap."""
from .scoring import *
from .pairlib import *
from . import c05
from . import ref as R_

ASSUMPTIONS = c05.ASSUMPTIONS + ASSUMPTIONS_PAIRS + ['a token or pair that occurs again is taken where it occurs first',
                                                     'None is no word of a classifier']


BUDGET = {'quick': 450, 'thorough': 900}


class Tiles:
    """Where the tokens and pairs of a message occur first: as the token at
    fp(t), or as the pair that ends there."""
    def __init__(self, vc, n, at, mem0):
        self.vc, self.n, self.at = vc, n, at
        cx = vc.cx
        self.M = z3.Function('token_or_pair', Tok, B)
        self.fp = z3.Function('first_at', Tok, I)
        self.fpair = z3.Function('first_as_pair', Tok, B)
        M, fp, fpair = self.M, self.fp, self.fpair
        self.none = cx.tok_const(None)
        def where(t):
            w = fp(t)
            cx.register_index(w)
            return z3.Implies(M(t), z3.And(w >= 0, w < n, z3.If(fpair(t), z3.And(w >= 1, t == PAIR(at(w - 1), at(w))), t == at(w))))
        def element(i):
            x, p = at(i), PAIR(at(i - 1), at(i))
            return z3.Implies(z3.And(i >= 0, i < n), z3.And(
                M(x), x != self.none, fp(x) <= i, z3.Implies(fp(x) == i, z3.Not(fpair(x))),
                z3.Implies(i >= 1, z3.And(M(p), p != self.none, fp(p) <= i))))
        cx.add_fact(Tok, where, 'where a token or pair is first')
        cx.add_fact(IDX, element, 'a token or pair of the message')

    def upto(self, t, k): return z3.And(self.M(t), self.fp(t) < k)

    def covers(self, t, j):
        """Position j of the message is one of t."""
        return z3.Or(j == self.fp(t), z3.And(self.fpair(t), j == self.fp(t) - 1))

    def overlap(self, a, b):
        return z3.Or(self.covers(a, self.fp(b)), z3.And(self.fpair(b), self.covers(a, self.fp(b) - 1)))


def tile_stream(vc):
    pair_contract(vc)
    it, mem, n, at = words_stream(vc)
    vc.cx.ghost['tiles'] = Tiles(vc, n, at, mem)
    return it, vc.cx.ghost['tiles'].M, n, at


def leaves(v):
    """(words, reals, alternatives of positions) in a nested tuple."""
    if isinstance(v, STok): return [v.t], [], []
    if isinstance(v, (SReal, float)): return [], [ops.toreal(v)], []
    alts = v.alts if isinstance(v, SAlt) else [(z3.BoolVal(True), v)] if isinstance(v, tuple) else None
    if alts and all(isinstance(x, tuple) and x and all(isinstance(y, (SInt, int)) and not isinstance(y, bool) for y in x) for _, x in alts):
        return [], [], [(g, [ops.intterm(y) for y in x]) for g, x in alts]
    if isinstance(v, SAlt):
        ws = [keyterm(x) for _, x in v.alts if isinstance(x, STok)]
        return [], [], []
    out = [], [], []
    if isinstance(v, tuple):
        for x in v:
            for a, b in zip(out, leaves(x)): a.extend(b)
    return out


def element(l, i):
    """The word of an element of a list of candidates, and what else it says."""
    v = l(i)
    ws, rs, ps = leaves(v)
    if len(ws) != 1: return None
    return ws[0], rs, ps


def in_range(i, n): return z3.And(i >= 0, i < n)


def tiling(vc, sc):
    T = vc.cx.ghost['tiles']
    cx = vc.cx
    def exact(w, rs, ps):
        """What else an element says of its word."""
        out = []
        if len(rs) > 1: out += [rs[0] == sc.dist(w), rs[1] == sc.p(w)]
        if ps:
            fp = T.fp(w)
            out += [z3.Implies(g, z3.And(z3.Not(T.fpair(w)), xs[0] == fp) if len(xs) == 1 else
                               z3.And(T.fpair(w), z3.Or(z3.And(xs[0] == fp - 1, xs[1] == fp), z3.And(xs[0] == fp, xs[1] == fp - 1))) if len(xs) == 2 else z3.BoolVal(False)) for g, xs in ps]
        return z3.And(*out) if out else z3.BoolVal(True)
    def origins(i):
        """Registers where an element of a sorted list was before."""
        for idx, base, pkey in cx.ghost.get('enums', ()):
            if base == I: cx.register_index(z3.Function(pkey[len('perm:'):], I, I)(i))
    def f(loop):
        out = []
        if loop.kind != 'seq' or loop.it is None: return out
        k = z3.simplify(loop.k)
        message = loop.it.n.eq(T.n)
        objs = list(enumerate(loop.objects()))
        lists = [(j, o) for j, (o, what, shape) in objs if isinstance(o, PyList) and (o.symbolic or not o.items)]
        lists = [(j, o.n if o.symbolic else z3.IntVal(0), element_of(o)) for j, o in lists]
        lists = [x for x in lists if x[2] is not None]
        if not lists: return out
        cx.register_index(k)
        if message:
            cx.register(T.at(k))
            out += before(loop, k)
            for j, (o, what, shape) in objs:
                if isinstance(o, (PySet, PyDict)):
                    mem = ops.snapshot_mem(o)
                    if mem is not None and (o.sort == Tok or o.sort is None):
                        out.append(('%d holds the tokens and pairs so far' % j, Tok, lambda t, mem=mem: z3.Implies(t != T.none, mem(t) == T.upto(t, k))))
        for j, n, e in lists:
            w = lambda i, e=e: e(i)[0]
            out.append(('%d: what is said' % j, IDX, lambda i, n=n, e=e: z3.Implies(in_range(i, n), exact(*e(i)))))
            out.append(('%d: of the message' % j, IDX, lambda i, n=n, w=w: z3.Implies(in_range(i, n), z3.And(T.M(w(i)), sc.known(w(i)), sc.dist(w(i)) >= TENTH))))
            out += listed(loop, j, n, w, k) if message else chosen(loop, objs, j, n, w, k)
        return out
    def element_of(o):
        if not o.symbolic: return lambda i: (cx.fresh('none', Tok), [], [])
        if element(o._get, z3.Int('probe')) is None: return None
        get = o._get          # the list now, whenever the formulas are instantiated
        return lambda i: element(get, i)
    def before(loop, k):
        out = []
        for o, what, v in loop.locals():
            w, v = v, last_alt(v)
            if w is not v:
                unset = w.alts[0][0]
                out += [('%s.%s %s' % (o.name, what, x), y) for x, y in (
                    ('is set after the first', z3.Implies(k >= 1, z3.Not(unset))), ('is set after the second', z3.Implies(k >= 2, z3.Not(unset))),
                    ('is not set at first', z3.Implies(k <= 0, unset)), ('is not set before the second', z3.Implies(k <= 1, unset)))]
            if isinstance(v, STok):
                out.append(('%s.%s is the token before' % (o.name, what), z3.Implies(k >= 1, v.t == T.at(z3.simplify(k - 1)))))
                out.append(('%s.%s is the pair before' % (o.name, what), z3.Implies(k >= 2, v.t == PAIR(T.at(z3.simplify(k - 2)), T.at(z3.simplify(k - 1))))))
        return out
    def listed(loop, j, n, w, k):
        """Each strong token and pair so far is listed once."""
        phase = loop.phase
        last = [z3.simplify(n - 1), z3.simplify(n - 2)]
        pos = loop.function('place of %d' % j, Tok, I, lambda t: [(z3.And(i >= 0, w(i) == t), i) for i in last])
        def complete(t):
            p = pos(t)
            if phase == 'assume': cx.register_index(p)
            return z3.Implies(z3.And(T.upto(t, k), sc.dist(t) >= TENTH), z3.And(in_range(p, n), w(p) == t))
        for i in last: cx.register_index(i)
        return [('%d: once' % j, IDX, lambda i: z3.Implies(in_range(i, n), z3.And(T.fp(w(i)) < k, pos(w(i)) == i))),
                ('%d: complete' % j, Tok, complete)]
    def chosen(loop, objs, j, n, w, k):
        """Clues chosen from the candidates before k."""
        src = loop.it
        phase = loop.phase
        if element(src.elem, z3.Int('probe')) is None: return []
        def raw(r):
            origins(r)
            return element(src.elem, r)[0]
        def point(x):
            if phase != 'prove': return
            cx.register(x)
            for t in (T.fp(x), z3.simplify(T.fp(x) - 1)):
                cx.register_index(t)
                cx.register_index(own(t))
        last = z3.simplify(n - 1)
        cx.register_index(last)
        own = loop.function('owner in %d' % j, I, I, lambda t: [(z3.And(last >= 0, T.covers(w(last), t)), last)])
        cx.register(last, 'clue')
        for r in (k, z3.simplify(k - 1)):
            cx.register_index(r)
            cx.register(r, 'order')
            x = raw(r)
            point(x)
        def disjoint(c):
            x = w(c)
            point(x)
            return z3.Implies(in_range(c, n), z3.And(own(T.fp(x)) == c, z3.Implies(T.fpair(x), own(T.fp(x) - 1) == c)))
        out = [('%d: disjoint' % j, IDX, disjoint),
               ('%d: at least as strong as what follows' % j, IDX, lambda a: z3.Implies(z3.And(in_range(a, n), k < src.n), sc.dist(w(a)) >= sc.dist(raw(k)))),
               ('%d: strongest first' % j, ('clue', 'clue'), lambda a, b: z3.Implies(z3.And(in_range(a, n), in_range(b, n), a < b), sc.dist(w(a)) >= sc.dist(w(b))))]
        for m, (o, what, shape) in objs:
            if not isinstance(o, (PySet, PyDict)) or (o.sort is not None and o.sort != I): continue
            if not o.symbolic and o.items: continue
            mem = ops.snapshot_mem(o) if o.symbolic or isinstance(o, PySet) else (lambda t: z3.BoolVal(False))
            def taken(t, mem=mem):
                c = own(t)
                cx.register_index(c)
                cx.register(w(c))
                return mem(t) == z3.And(in_range(c, n), T.covers(w(c), t))
            out.append(('%d: the positions of clues of %d' % (m, j), IDX, taken))
        def picks(r):
            x = raw(r)
            c1, c2 = own(T.fp(x)), own(T.fp(x) - 1)
            now = r == z3.simplify(k - 1)
            return [(z3.And(now, in_range(c1, n), T.covers(w(c1), T.fp(x))), c1), (z3.And(now, in_range(c2, n), T.fpair(x), T.covers(w(c2), T.fp(x) - 1)), c2)]
        left = loop.function('instead in %d' % j, I, I, picks)
        def instead(r):
            x, c = raw(r), left(r)
            point(x)
            if phase == 'assume': cx.register_index(c)
            old = z3.simplify(k - 1)
            def says(c): return z3.And(in_range(c, n), T.overlap(w(c), x), sc.dist(w(c)) >= sc.dist(x))
            if phase == 'assume': return z3.Implies(z3.And(in_range(r, src.n), r < k), says(c))
            return [z3.Implies(z3.And(in_range(r, src.n), r < old), says(c)), z3.Implies(z3.And(in_range(r, src.n), r == old), says(c))]
        out.append(('%d: candidates are clues or overlap one as strong' % j, IDX, instead))
        return out
    return f


def trace(vc, w):
    """Registers where a candidate, or what is taken instead, may be."""
    cx = vc.cx
    cx.register(w)
    funs = cx.ghost.get('functions', ())
    at = [f(w) for name, f in funs if f.domain(0) == Tok]
    at += [idx(t) for idx, base, pkey in cx.ghost.get('enums', ()) if base == I for t in at]
    at += [f(t) for name, f in funs if name.startswith('instead') for t in at]
    at += [z3.simplify(m - 1 - t) for m in cx.ghost.get('reversals', ()) for t in at]
    for cnt, a in cx.ghost.get('shifts', ()):
        c = z3.simplify(cnt)
        if not (z3.is_int_value(c) and c.as_long() == 0): at += [z3.simplify(t - cnt) for t in at]
    for t in at:
        cx.register_index(t)
        cx.register(t, 'clue')


def back(vc, i):
    """Registers where an element of a list that was cut and reversed was before."""
    cx = vc.cx
    at = [i]
    at += [z3.simplify(t + cnt) for cnt, a in cx.ghost.get('shifts', ()) for t in list(at)]
    at += [z3.simplify(m - 1 - t) for m in cx.ghost.get('reversals', ()) for t in list(at)]
    for t in at:
        cx.register_index(t)
        cx.register(t, 'clue')


def wanted(sc, n, clue, cx, T):
    """What holds of a list of clues, as (name, formula, sorts)."""
    inr = lambda i: z3.And(i >= 0, i < n)
    return [
        ('every clue is a known token or pair of the message', lambda i: z3.Implies(inr(i), z3.And(T.M(clue(i)[0]), sc.known(clue(i)[0]))), I),
        ('every clue has its own probability', lambda i: z3.Implies(inr(i), clue(i)[1] == sc.p(clue(i)[0])), I),
        ('every clue is at least 0.1 away from 0.5', lambda i: z3.Implies(inr(i), sc.dist(clue(i)[0]) >= TENTH), I),
        ('at most 150 clues', n <= 150, None),
        ('no clue occurs twice', lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i != j), clue(i)[0] != clue(j)[0]), (I, I)),
        ('no position is in two clues', lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i != j), z3.Not(T.overlap(clue(i)[0], clue(j)[0]))), (I, I))]


def begin(vc, make):
    cx = vc.cx
    sc = Scoring(vc, make=make, bigrams=True, stream=tile_stream)
    cx.assume(z3.Not(sc.st0.dom(cx.ghost['tiles'].none)))
    return sc, cx.ghost['tiles']


def getclues_target(make=sym_classifier):
    def run(vc):
        cx = vc.cx
        sc, T = begin(vc, make)
        cx.ghost['order'] = 'first'
        sc.invariants(tiling(vc, sc))
        r, exc = vc.attempt(lambda: models.to_pylist(vc.i, vc.method(sc.clf, '_getclues', sc.ws), 'clues'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        n = z3.simplify(r.length())
        inr = lambda i: z3.And(i >= 0, i < n)
        def clue(i):
            e = element(r.get, i)
            if e is None or len(e[1]) != 1: raise Unsupported('clues that are no words with a probability')
            w, p = e[0], e[1][0]
            cx.register(w)
            for t in positions_in(w): cx.register_index(t)
            return w, p
        if not r.symbolic and not r.items: vc.prove('there are no clues', n == 0)
        else:
            for name, formula, sorts in wanted(sc, n, clue, cx, T): vc.prove(name, formula, sorts)
        def left_out(w):
            cx.assume(z3.And(T.M(w), sc.dist(w) >= TENTH))
            if r.symbolic: cx.add_fact(IDX, lambda i: z3.Implies(inr(i), z3.Not(z3.And(T.overlap(clue(i)[0], w), sc.dist(clue(i)[0]) >= sc.dist(w)))))
            trace(vc, w)
        def only_at_limit(w):
            left_out(w)
            return n == 150
        vc.prove('what overlaps no clue as strong is left out only if there are 150 clues', only_at_limit, Tok)
        def weaker(w, i):
            left_out(w)
            back(vc, i)
            return z3.Implies(inr(i), sc.dist(clue(i)[0]) >= sc.dist(w))
        if r.symbolic: vc.prove('what overlaps no clue as strong is left out only for clues as strong', weaker, (Tok, I))
        vc.cover('end')
    return dict(name='the clues of a message with pairs', fn=run, covers=['end'], opts=dict(cand_ms=40000, feas_ms=500))


def evidence_target(make=sym_classifier):
    """spamprob() gives the clues of _getclues(), by its contract, as evidence."""
    def run(vc):
        cx = vc.cx
        sc, T = begin(vc, make)
        sc.invariants()
        m = cx.fresh('n_clues', I)
        W, P, at = cx.fresh_fun('clue', [I], Tok), cx.fresh_fun('prob', [I], z3.RealSort()), cx.fresh_fun('index', [Tok], I)
        vc.assume(z3.And(m >= 0, m <= 150))
        vc.fact(IDX, lambda i: z3.Implies(in_range(i, m), z3.And(P(i) > 0, P(i) < 1, at(W(i)) == i)), 'clues')
        def h(interp, args, kw):
            interp.drain(args[1])
            return PyList(n=m, get=lambda i: (SReal(P(i)), STok(W(i)), None), site='clues')
        vc.i.overrides[MOD + 'Classifier._getclues'] = h
        r, exc = sc.run(True)
        vc.prove('no exception', exc is None)
        if exc is not None: return
        score, E, n, clue = evidence_parts(r)
        vc.prove('as many clues', n == m)
        def one(i):
            w, p = clue(i)
            c = at(w)
            cx.register_index(c)
            return z3.Implies(in_range(i, n), z3.And(in_range(c, m), W(c) == w, P(c) == p))
        vc.prove('every clue in evidence is a clue, with its probability', one, I)
        vc.prove('none occurs twice', lambda i, j: z3.Implies(z3.And(in_range(i, n), in_range(j, n), i != j), clue(i)[0] != clue(j)[0]), (I, I))
        s = ops.toreal(score)
        vc.prove('the score is in [0, 1]', z3.And(s >= 0, s <= 1))
        vc.cover('end')
    return dict(name='the evidence of spamprob', fn=run, covers=['end'])


def positions_in(t):
    """The integer arguments of functions in a term."""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        for c in x.children():
            if c.sort() == I and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(c)
            todo.append(c)
    return out


def targets(tier):
    return [getclues_target(), evidence_target()]


# ---------------------------------------------------------------- concrete

_PAIRS = {}


def pair_token(x, y):
    """The token the classifier trains for a pair."""
    r = _PAIRS.get((type(x), x, y))
    if r is None:
        clf = basic_.Classifier(use_bigrams=True)
        clf.learn([x, y], True)
        new = [w for w in clf.wordinfo if w not in (x, y)]
        r = _PAIRS[type(x), x, y] = new[0] if len(new) == 1 else R_.pairs([x, y])[0]
    return r


def candidates(tokens):
    """Where each token and pair occurs first."""
    first = {}
    for i, t in enumerate(tokens):
        if t not in first: first[t] = (i,)
        if i:
            p = pair_token(tokens[i - 1], t)
            if p not in first: first[p] = (i - 1, i)
    return first


def counts_case(rng):
    kind = rng.choice(['str', 'bytes'])
    v = R_.vocab(rng, kind, rng.choice([1, 2, 3, 4, 6, 10, 40, 200, 400]))
    if rng.random() < 0.1: v.append(pair_token(rng.choice(v), rng.choice(v)))      # a token that looks like a pair
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 12, rng.randint(0, 40), rng.randint(100, 450)])
    toks = [rng.choice(v) for _ in range(n)]
    if rng.random() < 0.5:
        toks = list(dict.fromkeys(toks))
        rng.shuffle(toks)
    big = rng.choice([1, 2, 3, 3, 10, 100, 10 ** 4])
    ns, nh = rng.choice([0, 1, big, rng.randint(0, big)]), rng.choice([0, 1, big, rng.randint(0, big)])
    mode = rng.choice(['any', 'any', 'strong', 'pairs', 'tokens', 'even'])
    known = rng.choice([1, 1, 0.9, 0.5])
    words = []
    for w, where in sorted(candidates(toks).items(), key=lambda x: x[1]):
        if rng.random() > known: continue
        s, h = rng.randint(0, ns), rng.randint(0, nh)
        strong = rng.choice([(ns, 0), (0, nh)])
        if mode == 'strong' and rng.random() < 0.9 or mode == ('pairs', 'tokens')[len(where) == 1] and rng.random() < 0.9: s, h = strong
        if mode == 'even': s, h = (ns, 0)
        if s + h: words.append(R_.enc([w]) + [s, h])
    return dict(nspam=ns, nham=nh, words=words, message=R_.enc(toks), it=rng.choice(['list', 'iter', 'gen', 'tuple']))


def cases(rng):
    while True:
        if rng.random() < 0.7: yield counts_case(rng)
        else:
            v = R_.vocab(rng, rng.choice(['str', 'bytes']), rng.choice([2, 3, 5, 8]))
            msgs = [[bool(rng.random() < 0.5), R_.enc(R_.message(rng, v))] for _ in range(rng.randint(1, 8))]
            yield dict(train=msgs, message=R_.enc(R_.message(rng, v, 12)), it=rng.choice(['list', 'iter', 'gen', 'tuple']))


def run_case(case):
    clf = basic_.Classifier(use_bigrams=True)
    for spam, toks in case.get('train', ()): clf.learn(R_.dec(toks), spam)
    if 'words' in case:
        clf.nspam, clf.nham = case['nspam'], case['nham']
        for w, s, h in case['words']: clf._wordinfoset(R_.dec([w])[0], basic_.WordInfo(s, h))
    tokens = R_.dec(case['message'])
    try: s, ev = clf.spamprob(R_.stream(tokens, case['it']), True)
    except Exception as e: return 'spamprob raised %r' % (e,)
    return check_tiling(clf, candidates(tokens), ev)


def check_tiling(clf, first, ev):
    clues = ev[2:]
    ws = [w for w, p in clues]
    if len(set(ws)) != len(ws): return 'a clue occurs twice: %r' % (ws,)
    if not set(ws) <= set(first): return 'clues that are no tokens or pairs of the message: %r' % (set(ws) - set(first),)
    if len(ws) > 150: return '%d clues' % len(ws)
    d = {w: abs(R_.clf_prob(clf, w) - 0.5) for w in first}
    owner = {}
    for w, p in clues:
        if abs(p - R_.clf_prob(clf, w)) > 1e-9: return 'clue %r has probability %r, expected %r' % (w, p, R_.clf_prob(clf, w))
        if d[w] < 0.1 - 1e-12: return 'clue %r is only %r away from 0.5' % (w, d[w])
        for i in first[w]:
            if i in owner: return 'token %d of the message is in the clues %r and %r' % (i, owner[i], w)
            owner[i] = w
    weakest = min((d[w] for w in ws), default=0)
    for w, at in first.items():
        if w in set(ws) or d[w] < 0.1 + 1e-12: continue
        if any(i in owner and d[owner[i]] >= d[w] - 1e-12 for i in at): continue
        if len(ws) != 150: return '%r, %r away from 0.5, is left out of %d clues and overlaps none as strong' % (w, d[w], len(ws))
        if d[w] > weakest + 1e-12: return '%r, %r away from 0.5, is left out, a clue only %r away is used' % (w, d[w], weakest)
    return None
