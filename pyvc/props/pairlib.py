"""Messages as sequences of tokens and pairs of adjacent tokens."""
from .lib import *
from ..interp import Env
from sbclassifier.classifiers import basic as basic_

PAIR = z3.Function('pair', Tok, Tok, Tok)

ASSUMPTIONS_PAIRS = ['the token of a pair is a function of the two tokens and is none of the single tokens compared with it unless equal as a string (proved by target "the token of a pair")']


def pair_contract(vc):
    def h(interp, args, kw):
        if kw or len(args) != 2: raise Unsupported('bigram() with other arguments')
        x, y = (keyterm(a) if force(a) is not None else vc.cx.tok_const('None') for a in args)
        if x.sort() != Tok or y.sort() != Tok: raise Unsupported('bigram of no tokens')
        t = PAIR(x, y)
        vc.cx.register(t)
        return STok(t)
    vc.i.overrides['sbclassifier.classifiers.basic:bigram'] = h


class Pairs:
    """Tokens and pairs of the first k tokens of a message."""
    def __init__(self, vc, n, at):
        self.vc, self.n, self.at = vc, n, at
        self.P = z3.Function('tokens_and_pairs', Tok, I, B)
        self.pos = z3.Function('found_at', Tok, I)
        self.seen = {}
        cx = vc.cx
        P, pos = self.P, self.pos
        def empty(t): return z3.Not(P(t, z3.IntVal(0)))
        def where(t):
            w = pos(t)
            cx.register_index(w)
            return z3.Implies(P(t, n), z3.And(w >= 0, w < n, self.at_(t, w)))
        def element(i): return z3.Implies(z3.And(i >= 0, i < n), z3.And(P(at(i), n), z3.Implies(i >= 1, P(PAIR(at(i - 1), at(i)), n))))
        cx.add_fact(Tok, empty, 'nothing of nothing')
        cx.add_fact(Tok, where, 'where a token or pair is')
        cx.add_fact(IDX, element, 'a token or pair of the message')

    def at_(self, t, w):
        """t is the token at w, or the pair that ends there."""
        at = self.at
        return z3.Or(t == at(w), z3.And(w >= 1, t == PAIR(at(w - 1), at(w))))

    def step(self, k):
        """What the first k + 1 have more than the first k."""
        k = z3.simplify(k)
        if k.get_id() in self.seen: return
        self.seen[k.get_id()] = k
        cx, P = self.vc.cx, self.P
        cx.add_fact(Tok, lambda t: z3.Implies(k >= 0, P(t, z3.simplify(k + 1)) == z3.Or(P(t, k), self.at_(t, k))), 'one token more')

    def mem(self, t): return self.P(t, self.n)


def pair_stream(kind):
    def make(vc, name='m', raising=False):
        pair_contract(vc)
        it, mem, n, at = words_stream(vc, name, raising)
        ps = Pairs(vc, n, at)
        vc.cx.ghost['pairs'] = ps
        if kind == 'list':
            vc.cx.assume(n >= 0)
            it = PyList(n=n, get=memo1(lambda i: it_elem(vc, at, i)), site='message')
        return it, ps.mem, n, at
    return make


def it_elem(vc, at, i):
    vc.cx.register(at(i))
    return STok(at(i))


def collected(vc):
    """What a loop through the message has put in a set, dictionary or variable."""
    def f(loop):
        ps = vc.cx.ghost['pairs']
        out = []
        if loop.kind != 'seq': return out
        k = z3.simplify(loop.k)
        ps.step(k)
        if 'raises at' in vc.cx.ghost: out.append(('the exception is to come', k <= vc.cx.ghost['raises at']))
        vc.cx.register(ps.at(k)); vc.cx.register_index(k)
        for j, (o, what, shape) in enumerate(loop.objects()):
            if isinstance(o, (PySet, PyDict)):
                mem = ops.snapshot_mem(o)
                if (o.sort is not None and o.sort != Tok) or mem is None: continue
                out.append(('%d holds the tokens and pairs so far' % j, Tok, lambda t, mem=mem: mem(t) == ps.P(t, k)))
        for o, what, v in loop.locals():
            w, v = v, last_alt(v)
            if w is not v: out.append(('%s.%s is set after the first' % (o.name, what), z3.Implies(k >= 1, z3.Not(w.alts[0][0]))))
            if isinstance(v, STok):
                for d in (1, 2):
                    out.append(('%s.%s is the token %d before' % (o.name, what, d), z3.Implies(k >= d, v.t == ps.at(z3.simplify(k - d)))))
        return out
    return f


def last_alt(v):
    if isinstance(v, SAlt) and len(v.alts) == 2 and isinstance(v.alts[-1][1], STok) and not isinstance(v.alts[0][1], STok): return v.alts[-1][1]
    return v
