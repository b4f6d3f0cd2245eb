"""A memory cache is bounded and first-in first-out."""
from .lib import *
from .cachelib import *

ASSUMPTIONS = [
    'keys and values are opaque; keys are hashable and their equality is an equivalence',
    'only the cache changes its own dictionary and list; one thread',
    'a dictionary gives the same keys by keys(), by iteration and by items() (Python)',
]


def start(vc, limited):
    cache = sym_cache(vc, limited)
    return cache, CacheState(vc.cx, cache)


def put(limited):
    def run(vc):
        cx = vc.cx
        cache, st0 = start(vc, limited)
        k, v = z3.Const('k', Tok), z3.Const('v', Tok)
        cx.register(k)
        new = not cx.branch(st0.dom(k))
        full = new and limited and cx.branch(st0.n == ops.intterm(st0.max))
        r, exc = vc.attempt(lambda: vc.method(cache, 'put', STok(k), STok(v)))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        st = CacheState(cx, cache)
        for i in (z3.IntVal(0), z3.simplify(st0.n - 1), st0.n): cx.register_index(i)
        prove_inv(vc, put_post(st0, st, k, v, new, full))
        prove_inv(vc, st.invariant(where(cache, st)))
        vc.prove('the limit stays', z3.BoolVal(True) if st.max is st0.max else ops.as_term_bool(ops.eq(st.max, st0.max)))
        vc.cover('full' if full else 'room' if new else 'known')
    return dict(name='put, %s' % ('limit N' if limited else 'no limit'), fn=run, covers=['known', 'room'] + (['full'] if limited else []))


def pop(limited):
    def run(vc):
        cx = vc.cx
        cache, st0 = start(vc, limited)
        k = z3.Const('k', Tok)
        cx.register(k)
        there = cx.branch(st0.dom(k))
        r, exc = vc.attempt(lambda: vc.method(cache, 'pop', STok(k)))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        st = CacheState(cx, cache)
        r = force(r)
        if there: vc.prove('the value is returned', keyterm(r) == st0.val(k) if isinstance(r, STok) else False)
        prove_inv(vc, pop_post(st0, st, k, there, cache.pos(k)))
        prove_inv(vc, st.invariant(where(cache, st)))
        vc.cover('there' if there else 'absent')
    return dict(name='pop, %s' % ('limit N' if limited else 'no limit'), fn=run, covers=['there', 'absent'])


def look():
    """Every way of looking at the cache shows its entries."""
    def run(vc):
        cx = vc.cx
        cache, st0 = start(vc, True)
        k = z3.Const('k', Tok)
        cx.register(k)
        there = st0.dom(k)
        n, exc = vc.attempt(lambda: vc.call(len, cache))
        vc.prove('length', exc is None and ops.intterm(force(n)) == st0.n)
        def member():
            c = vc.i.contains(cache, STok(k))
            return ops.as_term_bool(c)
        m, exc = vc.attempt(member)
        vc.prove('membership', exc is None and m == there)
        for name, args in (('get', []), ('get with a default', [STok(z3.Const('default', Tok))])):
            r, exc = vc.attempt(lambda: force(vc.method(cache, 'get', STok(k), *args)))
            vc.prove('%s: no exception' % name, exc is None)
            if exc is None:
                if r is None: vc.prove('get gives None for an unknown key', z3.Not(there) if not args else False)
                else: vc.prove('%s gives the value' % name, z3.If(there, keyterm(r) == st0.val(k), z3.BoolVal(False) if not args else keyterm(r) == keyterm(args[0])))
        r, exc = vc.attempt(lambda: force(vc.i.getitem(cache, STok(k))))
        if exc is not None: vc.prove('KeyError for an unknown key only', z3.And(z3.Not(there), z3.BoolVal(exc.cls is KeyError)))
        else: vc.prove('lookup gives the value', z3.And(there, keyterm(r) == st0.val(k)))
        def as_set(v):
            s = models.to_set(vc.i, v, 'seen')
            return s.mem
        for name, thunk in (('keys', lambda: vc.method(cache, 'keys')), ('iteration', lambda: vc.call(iter, cache))):
            m, exc = vc.attempt(lambda: as_set(thunk()))
            vc.prove('%s: no exception' % name, exc is None)
            if exc is None: vc.prove('%s' % name, lambda t: m(t) == st0.dom(t), Tok)
        vals, exc = vc.attempt(lambda: models.to_pylist(vc.i, vc.method(cache, 'items'), 'items'))
        vc.prove('items: no exception', exc is None)
        if exc is None:
            def item(i):
                e = vals.get(i)
                w, v = keyterm(e[0]), keyterm(e[1])
                cx.register(w)
                return z3.Implies(z3.And(i >= 0, i < vals.length()), z3.And(st0.dom(w), st0.val(w) == v))
            vc.prove('items give entries', item, I)
            vc.prove('as many items as entries', vals.length() == st0.n)
        vals2, exc = vc.attempt(lambda: models.to_pylist(vc.i, vc.method(cache, 'values'), 'values'))
        vc.prove('values: no exception', exc is None)
        if exc is None: vc.prove('as many values as entries', vals2.length() == st0.n)
        st = CacheState(cx, cache)
        vc.prove('looking changes nothing', lambda t: z3.And(st.dom(t) == st0.dom(t), st.val(t) == st0.val(t)), Tok)
        vc.prove('the order stays', lambda i: z3.Implies(z3.And(i >= 0, i < st0.n), st.at(i) == st0.at(i)), I)
        vc.prove('the number stays', st.n == st0.n)
        vc.cover('end')
    return dict(name='looking at the cache', fn=run, covers=['end'])


def new():
    def run(vc):
        mx = z3.Int('m')
        vc.assume(mx >= 1)
        for args, limit in (([], float('inf')), ([SInt(mx)], SInt(mx))):
            cache, exc = vc.attempt(lambda: vc.call(NaiveCache, *args))
            vc.prove('no exception', exc is None)
            if exc is not None: return
            st = CacheState(vc.cx, cache)
            vc.prove('empty', z3.And(st.n == 0, st.size == 0))
            vc.prove('the limit', ops.as_term_bool(ops.eq(st.max, limit)))
        vc.cover('end')
    return dict(name='a new cache', fn=run, covers=['end'])


from .. import models


def targets(tier):
    return [new(), put(True), put(False), pop(True), pop(False), look()]


# ---------------------------------------------------------------- the real code

def cases(rng):
    while True:
        keys = rng.sample(['a', 'b', 'c', 'd', 'e', '', 'k1', 'k2', 'x', 'y'], rng.choice([2, 3, 5, 8]))
        ops_ = []
        for _ in range(rng.choice([3, 6, 12, 30])):
            r = rng.random()
            k = rng.choice(keys)
            ops_.append(['put', k, rng.randint(0, 9)] if r < 0.6 else ['pop', k] if r < 0.8 else ['get', k])
        yield dict(limit=rng.choice([1, 1, 2, 3, 4, None]), ops=ops_)


def run_case(case):
    from collections import OrderedDict
    limit = case['limit']
    try: c = NaiveCache() if limit is None else NaiveCache(max_size=limit)
    except Exception as e: return 'a new cache raised %r' % (e,)
    ref = OrderedDict()
    for i, op in enumerate(case['ops']):
        k = op[1]
        try:
            if op[0] == 'put':
                if k not in ref and limit is not None and len(ref) == limit: ref.popitem(last=False)
                ref[k] = op[2]
                c.put(k, op[2])
            elif op[0] == 'pop':
                want = ref.pop(k, None)
                got = c.pop(k)
                if got != want: return 'step %d: pop(%r) gave %r, expected %r' % (i, k, got, want)
            else:
                if c.get(k) != ref.get(k) or c.get(k, 'd') != ref.get(k, 'd'): return 'step %d: get(%r) gave %r' % (i, k, c.get(k))
            f = agree(c, ref, k)
        except Exception as e: return 'step %d %r raised %r' % (i, op, e)
        if f: return 'after step %d %r: %s' % (i, op, f)
    return None


def agree(c, ref, k):
    if len(c) != len(ref): return 'length %d, expected %d' % (len(c), len(ref))
    for name, a, b in (('keys', c.keys(), ref.keys()), ('iteration', iter(c), ref.keys()), ('values', c.values(), ref.values()), ('items', c.items(), ref.items())):
        if sorted(a, key=repr) != sorted(b, key=repr): return '%s are not %r' % (name, list(b))
    for k in list(ref) + [k]:
        if (k in c) != (k in ref): return 'membership of %r' % (k,)
        try: v = c[k]
        except KeyError:
            if k in ref: return 'lookup of %r fails' % (k,)
        else:
            if k not in ref or v != ref[k]: return 'lookup of %r gives %r' % (k, v)
    return None
