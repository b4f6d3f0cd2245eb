"""Symbolic memory caches (sbclassifier.corpora.caches.NaiveCache)."""
import z3
from .. import core, ops
from ..core import *
from sbclassifier.corpora import caches
from sbclassifier.corpora.caches import NaiveCache, FileCache

MODULE = 'sbclassifier.corpora.caches:'


class CacheState:
    """What a cache holds: a sequence of distinct keys, in the order in which
    they were added, and the value of each."""
    def __init__(self, cx, cache):
        ks, d = cache.fields['_keys'], cache.fields['data']
        self.n = ks.length()
        self.at_ = ops.snapshot_list(ks)
        self.dom = ops.snapshot_mem(d)
        self.val_ = d._val if d.symbolic else (lambda t: d.val(t))
        self.size = ops.intterm(ops.length(d))
        self.novals = not d.symbolic and not d.items
        self.max = cache.fields['max_size']

    def at(self, i):
        c = core.cx()
        for j in (i, z3.simplify(i + 1)): c.register_index(j)
        return keyterm(self.at_(i))
    def val(self, t):
        if self.novals: return z3.Const('no_value', Tok)
        return keyterm(self.val_(t))

    def invariant(self, where, sort=Tok):
        """where(t): terms, one of which is the position of key t."""
        n = self.n
        inr = lambda i: z3.And(i >= 0, i < n)
        def held(t):
            alts = [z3.And(inr(p), self.at(p) == t) for p in where(t)]
            return z3.Implies(self.dom(t), z3.Or(alts) if alts else z3.BoolVal(False))
        out = [('no key is listed twice', (I, I), lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i != j), self.at(i) != self.at(j))),
               ('every key listed has a value', I, lambda i: z3.Implies(inr(i), self.dom(self.at(i)))),
               ('every key with a value is listed', sort, held),
               ('as many values as keys', self.size == n)]
        if not isinstance(self.max, float): out.append(('within the limit', n <= ops.intterm(self.max)))
        return out


def sym_cache(vc, limited, cls=NaiveCache, sort=Tok, **fields):
    """Any state of a cache that satisfies the invariant."""
    cx = vc.cx
    n = z3.Int('c_n')
    at = z3.Function('c_at', I, sort)
    pos = z3.Function('c_pos', sort, I)
    dom = z3.Function('c_dom', sort, B)
    val = z3.Function('c_val', sort, Tok)
    cx.assume(n >= 0)
    if limited:
        mx = z3.Int('max_size')
        cx.assume(z3.And(mx >= 1, n <= mx))
        limit = SInt(mx)
    else: limit = float('inf')
    def f1(i):
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(dom(at(i)), pos(at(i)) == i))
    def f2(t):
        cx.register_index(pos(t))
        return z3.Implies(dom(t), z3.And(pos(t) >= 0, pos(t) < n, at(pos(t)) == t))
    cx.add_fact(IDX, f1, 'listed')
    cx.add_fact(sort, f2, 'position')
    def elem(i):
        cx.register(at(i))
        return mkkey(at(i))
    keys = PyList(n=n, get=elem, site='keys')
    data = PyDict(dom=memo1(lambda t: dom(t)), val=memo1(lambda t: STok(val(t))), site='data', sort=sort, size=n)
    cache = Obj(cls, 'cache', _keys=keys, data=data, max_size=limit, **fields)
    cache.pos = pos
    cache.sort = sort
    return cache


def where(cache, st):
    """Candidates for the position of a key after an operation."""
    def f(t):
        p = cache.pos(t)
        c = core.cx()
        out = [p, z3.simplify(p - 1), z3.simplify(st.n - 1)]
        for x in out: c.register_index(x)
        return out
    return f


def put_post(st0, st, k, v, new, full, sort=Tok):
    """(name, sorts, formula) of what put() has to do."""
    n = st0.n
    if not new:
        order = lambda i: z3.Implies(z3.And(i >= 0, i < n), st.at(i) == st0.at(i))
        length = st.n == n
        dom = lambda t: st.dom(t) == st0.dom(t)
    elif not full:
        order = lambda i: z3.And(z3.Implies(z3.And(i >= 0, i < n), st.at(i) == st0.at(i)), st.at(n) == k)
        length = st.n == n + 1
        dom = lambda t: st.dom(t) == z3.Or(st0.dom(t), t == k)
    else:
        order = lambda i: z3.And(z3.Implies(z3.And(i >= 0, i < n - 1), st.at(i) == st0.at(z3.simplify(i + 1))), st.at(z3.simplify(n - 1)) == k)
        length = st.n == n
        dom = lambda t: st.dom(t) == z3.Or(t == k, z3.And(st0.dom(t), t != st0.at(z3.IntVal(0))))
    what = {(False, False): 'a key that is there', (True, False): 'a new key, room left', (True, True): 'a new key, cache full'}[(new, full)]
    return [('%s: the order' % what, I, order), ('%s: the number of entries' % what, length), ('%s: the keys' % what, sort, dom),
            ('%s: the values' % what, sort, lambda t: z3.Implies(st.dom(t), st.val(t) == z3.If(t == k, v, st0.val(t))))]


def pop_post(st0, st, k, there, p, sort=Tok):
    n = st0.n
    same_val = lambda t: z3.Implies(st.dom(t), st.val(t) == st0.val(t))
    if not there:
        return [('no such key: the order', I, lambda i: z3.Implies(z3.And(i >= 0, i < n), st.at(i) == st0.at(i))),
                ('no such key: the number of entries', st.n == n), ('no such key: the keys', sort, lambda t: st.dom(t) == st0.dom(t)),
                ('no such key: the values', sort, same_val)]
    return [('removed: the order', I, lambda i: z3.Implies(z3.And(i >= 0, i < n - 1), st.at(i) == z3.If(i < p, st0.at(i), st0.at(z3.simplify(i + 1))))),
            ('removed: the number of entries', st.n == n - 1), ('removed: the keys', sort, lambda t: st.dom(t) == z3.And(st0.dom(t), t != k)),
            ('removed: the values', sort, same_val)]
