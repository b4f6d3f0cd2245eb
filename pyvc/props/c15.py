"""CDB files."""
import ast, inspect, itertools, os, textwrap
from .lib import *
from . import cdblib as L
from . import cdbclf
from .c10 import keys
from .cdblib import HASH, LEN

from sbclassifier import cdb
from sbclassifier.cdb import Cdb, cdb_make
from sbclassifier.classifiers import storage
from sbclassifier.classifiers.storage import CDBClassifier

TOUCHES_FILES = True
ASSUMPTIONS = ['keys, values and words that are text can be encoded as UTF-8', 'the file has less than 4 GiB',
               'a file that is opened as a CDB classifier was written by store(); counts are those that training gives (C01, C02)']

TRUSTED = ['files: what is written at a place is read at that place, after the file was closed; open for writing empties; mmap gives the content of the file',
           'struct.pack and unpack of "<LL" are inverse of each other for numbers from 0 to 2**32 - 1',
           'texts: UTF-8 encodes different texts differently and decode() is its inverse; int() is the inverse of the decimal text of a number']


def is_value(v, t):
    """v is the bytes t."""
    return v.content() == t if isinstance(v, L.Bts) and v.kind is bytes else False


def used(vc, db):
    """db after any lookups: the numbers that its methods assign are any numbers."""
    names = set()
    for name, f in vars(Cdb).items():
        f = getattr(f, '__func__', f)
        if name == '__init__' or not inspect.isfunction(f): continue
        for n in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(f)))):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): names.add(n.attr)
    for n in sorted(names):
        v = db.fields.get(n, 0)
        if isinstance(v, (int, SInt)) and not isinstance(v, bool): db.fields[n] = SInt(vc.cx.fresh(n, I))
    return db


def search_invariants(fmt):
    """Every number the loop changes may be the place of the slot that is looked at, and any other the count of the slots."""
    def f(loop):
        out = []
        T, NS = fmt.T, fmt.NS
        ints = list(L.ints(loop))
        if fmt.q is not None: d = L.dist(fmt.start(NS), fmt.slot, NS)
        for n, x in ints:
            out.append(('%s is in the table' % n, z3.And(x >= T, x < T + 8 * NS)))
            out.append(('%s has been counted' % n, x == loop.k))
            out.append(('%s <= number of slots' % n, z3.And(x >= 0, x <= NS)))
            if fmt.q is not None: out.append(('%s <= distance of the slot' % n, x <= d))
            for m, y in ints:
                if m != n: out.append(('%s is the place of slot %s' % (n, m), x == T + 8 * L.cyc(fmt.start(NS) + y, NS)))
        return out
    return f


def read_target(how, kind, present):
    def fn(vc):
        if present:
            fmt = L.FileRead(vc, kinds=(kind, bytes))
            key = L.Bts(fmt.k0(fmt.q), kind)
        else:
            t = z3.Const('absent', L.BT)
            fmt = L.FileRead(vc, absent=L.ENC(t) if kind is str else t)
            key = L.Bts(t, kind)
        db = used(vc, vc.call(Cdb, L.open_file(vc, fmt)))
        vc.invariants(search_invariants(fmt))
        default = L.Bts(z3.Const('default', L.BT))
        if how == '[]': v, e = vc.attempt(lambda: vc.i.getitem(db, key))
        elif how == 'get': v, e = vc.attempt(lambda: vc.method(db, 'get', key))
        else: v, e = vc.attempt(lambda: vc.method(db, 'get', key, default))
        if present:
            vc.prove('a key of the file is found', e is None)
            if e is None: vc.prove('its value is given', is_value(v, fmt.V(fmt.q)))
        elif how == '[]':
            vc.prove('a key that is not in the file raises KeyError', e is not None and e.cls is KeyError)
        else:
            vc.prove('nothing is raised for a key that is not in the file', e is None)
            if e is None: vc.prove('the default is given', force(v) is (default if how == 'get with default' else None))
        vc.cover('end')
    return dict(name='Cdb %s, %s, %s' % (how, 'key' if present else 'no key', kind.__name__), fn=fn, covers=['end'])


def now(l):
    """The elements of a list as they are now."""
    return ops.snapshot_list(l)


def cell(get, s):
    """The numbers in slot s of a list of pairs, and zeros where it has none."""
    def part(v, i):
        if isinstance(v, SAlt):
            r = part(v.alts[-1][1], i)
            for g, w in reversed(v.alts[:-1]): r = z3.If(g, part(w, i), r)
            return r
        if v is None: return z3.IntVal(0)
        if isinstance(v, tuple) and len(v) == 2: return ops.intterm(v[i])
        raise Unsupported('element %r of a table' % (v,))
    v = get(s)
    return part(v, 0), part(v, 1)


def empty(get, s):
    """Slot s holds the constant that marks an empty one."""
    def f(v):
        if isinstance(v, SAlt): return z3.Or([z3.And(g, f(w)) for g, w in v.alts])
        return z3.BoolVal(v is None or type(v) is tuple and all(type(x) is int for x in v))
    return f(get(s))


def writer_invariants(vc, fmt, out, items):
    """What every loop of the writer may keep up. Loops are told by what they go through: the items, a range (the buckets), a list of pairs, a table."""
    g, N, P, j, C, q = vc.cx.ghost, fmt.N, fmt.P, fmt.j, fmt.count, fmt.q
    zero = z3.IntVal(0)
    hq, pq = HASH(fmt.K(q)), P(q)
    def entered(loop):
        loop.pos0 = out.pos
        loop.lens = {}
        loop.words = out.word
        for o in g.get('repeated', []): loop.lens[o.oid] = o.length()
        loop.free = None
        stack = g.get('loops', [])
        if loop.it is None and g.get('repeated') and len(stack) > 1:
            # k entries do not fill more than k slots (target "lemmas on counting")
            t = g['repeated'][-1]
            ns, k, get, of = t.length(), stack[-2].k, now(t), g.get('slot of an entry', lambda m: z3.IntVal(-1))
            s = loop.free = vc.cx.fresh('free', I)
            reg_slot(s)
            m = C(fmt.idx(cell(get, s)[1]))
            vc.assume(z3.Implies(z3.And(k >= 0, k < ns), z3.And(s >= 0, s < ns, z3.Not(z3.And(m >= 0, m < k, of(m) == s)))))
    g['loopentry'] = entered
    def reg_slot(s): vc.cx.register(s, fmt.SLOT)
    g['ends'] = True
    def bucket(loop):
        b = [l for l in g.get('loops', []) if l.it is not None and hasattr(l.it, 'range')]
        return b[0].k == j if b else z3.BoolVal(True)
    g['endscase'] = bucket         # j is any bucket
    def to_the_free_one(loop):
        if loop.free is None: return
        for n, x in L.ints(loop): yield 'slots from %s to an empty one' % n, L.dist(x, loop.free, g['repeated'][-1].length())
    g['measures'] = to_the_free_one

    def table_facts(table, ns, k, slot, guard, of):
        def known(s):
            a, b = cell(table, s)
            return z3.Implies(z3.And(s >= 0, s < ns), z3.And(a >= 0, b >= 0))
        yield 'slots hold no negative numbers', fmt.SLOT, known
        yield 'slots hold entries', fmt.SLOT, lambda s: z3.Implies(z3.And(guard, s >= 0, s < ns), z3.Or(empty(table, s), fmt.genuine(*cell(table, s))))
        def knows(s):
            m = C(fmt.idx(cell(table, s)[1]))
            return z3.Implies(z3.And(guard, s >= 0, s < ns), z3.Or(empty(table, s), z3.And(m >= 0, m < k, of(m) == s)))
        yield 'each entry is in one slot', fmt.SLOT, knows
        a, b = cell(table, slot)
        there = z3.And(guard, C(q) < k)
        yield 'the item is in a slot', z3.Implies(there, z3.And(slot >= 0, slot < ns, a == hq, b == pq))
        st = fmt.start(ns)
        yield 'no empty slot before it', fmt.SLOT, lambda s: z3.Implies(
            z3.And(there, s >= 0, s < ns, L.dist(st, s, ns) < L.dist(st, slot, ns)), cell(table, s)[1] != 0)

    def f(loop):
        res = []
        stack = g.get('loops', [])
        over_items = [l for l in stack if l.it is not None and l.it.src is items]
        buckets = [l for l in stack if l.it is not None and hasattr(l.it, 'range')]
        B = buckets[0] if buckets else None
        lk, pos, pos0, word, at = loop.k, out.pos, loop.pos0, out.word, out.at
        reg = vc.cx.register
        if B is not None: reg(B.k, 'bucket')
        if loop in over_items: reg(lk, fmt.ITEM)
        elif loop.it is not None and loop is not B:
            reg(lk, fmt.PLACE)
            reg(lk, fmt.SLOT)
        changes = [(o, w) for o, w, _ in loop.objects()]
        writes = any(o is out for o, w in changes)
        ints = list(L.ints(loop))
        tables = [o for o in g.get('repeated', [])]
        if writes:
            upto = over_items[0].k if over_items else N
            res.append(fmt.records(word, at, upto))
            if over_items:
                res.append(('records are behind', fmt.ITEM, lambda i: z3.Implies(z3.And(i >= 0, i < upto), P(i) + 8 + LEN(fmt.K(i)) + LEN(fmt.V(i)) <= pos)))
            else: res.append(('the file is at the end of the records or behind', pos >= P(N)))
        if loop in over_items:
            res.append(('the file is where record k begins', pos == P(lk)))
            res += [('%s is where record k begins' % n, x == P(lk)) for n, x in ints]
            for d, w in changes:
                if isinstance(d, PyDict) and (d.sort == I or not d.symbolic and not d.items):
                    if not d.symbolic:
                        res.append(('the bucket', z3.Implies(C(lk) > 0, d.dom(j)) if not d.items else z3.BoolVal(False)))
                        continue
                    l = d.val(j)
                    if not isinstance(l, PyList): continue
                    res.append(('the bucket', d.dom(j) == (C(lk) > 0)))
                    res.append(('the size of the bucket', z3.Implies(d.dom(j), l.length() == C(lk))))
                    def known(t, m, val=d._val, dom=d._dom):
                        l = val(t)
                        if not isinstance(l, PyList): return False
                        a, b = cell(now(l), m)
                        return z3.Implies(z3.And(dom(t), m >= 0, m < l.length()), z3.And(a >= 0, b >= 2048))
                    res.append(('entries are no negative numbers', ('bucket', fmt.PLACE), known))
                    res.append(('the entries of the bucket', fmt.PLACE, lambda m, get=now(l), there=d.dom(j): z3.Implies(
                        z3.And(there, m >= 0, m < C(lk)), entry(get, m))))
        if B is not None:
            k = B.k
            if writes: res += [('%s is the place in the file' % n, x == pos) for n, x in ints]
            if loop is B:
                res.append(('the first table begins where the records end', z3.Implies(k == 0, pos == P(N))))
                inner = [fn for name, fn in g.get('functions', []) if name == 'slot of the table']
                slot = loop.function('slot', I, I, lambda t: [(k == j + 1, inner[-1](t))] if inner else [])(zero)
                reg(slot, fmt.SLOT)
                if loop.phase == 'assume': g['slot'] = slot
                for o, what, v in loop.locals():
                    if isinstance(v, SAlt): continue
                    T, NS = (v.word(2 * j), v.word(2 * j + 1)) if isinstance(v, L.Packed) else (zero, zero)
                    if not isinstance(v, L.Packed) and v != b'': continue
                    nm = '%s.%s' % (o.name, what)
                    if isinstance(v, L.Packed):
                        res.append(('%s has two words for each table' % nm, v.n == 2 * k))
                        res.append(('%s begins with the end of the records' % nm, z3.Implies(k > 0, v.word(zero) == P(N))))
                    else: res += [('%s has two words for each table' % nm, k == 0), ('%s begins with the end of the records' % nm, k == 0)]
                    for c in fmt.table_layout(T, NS, word, slot, pos):
                        fm = c[-1]
                        if len(c) == 2: res.append(('%s: %s' % (nm, c[0]), z3.Implies(k > j, fm)))
                        else: res.append(('%s: %s' % (nm, c[0]), c[1], lambda s, fm=fm: z3.Implies(k > j, fm(s))))
                    if loop.phase == 'assume': loop.header = (T, NS, slot)
            else:
                if writes:
                    h = getattr(B, 'header', None)
                    if h is not None:
                        for c in fmt.table_layout(h[0], h[1], word, h[2], pos):
                            fm = c[-1]
                            if len(c) == 2: res.append((c[0], z3.Implies(k > j, fm)))
                            else: res.append((c[0], c[1], lambda s, fm=fm: z3.Implies(k > j, fm(s))))
                    res.append(('the place in the file', pos == pos0 + 8 * lk))
                    src = loop.it.src if loop.it is not None else None
                    if isinstance(src, PyList):
                        res.append(('the slots are in the file', fmt.SLOT, lambda m, get=now(src): z3.Implies(
                            z3.And(k == j, m >= 0, m < lk),
                            z3.And(word(pos0 + 8 * m) == cell(get, m)[0], word(pos0 + 8 * m + 4) == cell(get, m)[1]))))
                for o, w in changes:
                    if o in tables:
                        ns = loop.lens[o.oid]
                        res.append(('the size of the table', o.length() == ns))
                        ls = g.get('lastset', {}).get(o.oid)
                        if ls is not None: reg(ls, fmt.SLOT)
                        slot = loop.function('slot of the table', I, I, lambda t: [(fmt.nth(lk - 1) == q, ls)] if ls is not None else [])(zero)
                        reg(slot, fmt.SLOT)
                        of = loop.function('slot of an entry', I, I, lambda t: [(t == lk - 1, ls)] if ls is not None else [])
                        if loop.phase == 'assume': g['slot of an entry'] = of
                        res += table_facts(now(o), ns, lk, slot, k == j, of)
                if loop.it is None and tables and len(stack) > 1:
                    t, ns, e = now(tables[-1]), tables[-1].length(), stack[-2].k
                    st = fmt.start(ns)
                    for n, x in ints:
                        reg(x, fmt.SLOT)
                        res.append(('%s is a slot' % n, z3.And(x >= 0, x < ns)))
                        res.append(('%s: the slots before it are not empty' % n, fmt.SLOT, lambda s, x=x: z3.Implies(
                            z3.And(k == j, fmt.nth(e) == q, s >= 0, s < ns, L.dist(st, s, ns) < L.dist(st, x, ns)), cell(t, s)[1] != 0)))
        return res

    def entry(l, m):
        a, b = cell(l, m)
        i = fmt.nth(m)
        return z3.And(a == HASH(fmt.K(i)), b == P(i))
    return f


def make_target(kinds):
    def fn(vc):
        fmt = L.FileMade(vc, kinds=kinds)
        L.install(vc)
        g = vc.cx.ghost
        g['tupleid'] = True
        g['cutfor'] = lambda loop, v: isinstance(v, range) and len(v) > 32
        out, items = L.OutFile(), fmt.items()
        vc.invariants(writer_invariants(vc, fmt, out, items))
        r, e = vc.attempt(lambda: vc.call(cdb_make, out, items))
        vc.prove('nothing is raised', e is None)
        if e is not None: return
        end = out.pos
        for lo, hi in out.parts: end = z3.If(hi > end, hi, end)
        for c in fmt.layout(out.word, out.at, g.get('slot', z3.IntVal(-1)), end):
            if len(c) == 2: vc.prove(c[0], c[1])
            else: vc.prove(c[0], c[2], c[1])
        vc.cover('end')
    return dict(name='cdb_make of %s to %s' % tuple(k.__name__ for k in kinds), fn=fn, covers=['end'])


XOR8 = z3.Function('xor_of_bytes', I, I, I)


def xor(x, y):
    """x ^ y with a y of one byte: only the low byte of x changes."""
    c = vc_cx()
    if not c.branch(z3.And(y >= 0, y < 256)):
        if not c.branch(z3.And(x >= 0, x < 256)): raise Unsupported('^')
        x, y = y, x
    r = XOR8(x % 256, y)
    c.assume(z3.And(r >= 0, r < 256))
    return 256 * (x / 256) + r


def vc_cx():
    from .. import core
    return core.cx()


def hash_target():
    def fn(vc):
        t = z3.Const('text', L.BT)
        b = L.Bts(t)
        H = z3.Function('hash_after', I, I)
        g = vc.cx.ghost
        g['xor'] = xor
        vc.assume(H(0) == 5381)
        def step(k):
            x = (33 * H(k)) % 2 ** 32
            r = XOR8(x % 256, L.BYTE(t, k))
            return z3.And(r >= 0, r < 256, L.BYTE(t, k) >= 0, L.BYTE(t, k) < 256, z3.Implies(k >= 0, H(z3.simplify(k + 1)) == 256 * (x / 256) + r))
        vc.fact(IDX, step, 'the hash of CDB files')
        vc.invariants(lambda loop: [('%s is the hash so far' % n, z3.And(x == H(loop.k), x >= 0, x < 2 ** 32)) for n, x in L.ints(loop)])
        r, e = vc.attempt(lambda: vc.call(cdb.cdb_hash, b))
        vc.prove('nothing is raised', e is None)
        if e is not None: return
        vc.prove('it is the hash that the format names', ops.intterm(force(r)) == H(LEN(t)))
        vc.prove('it is a number of 32 bits', z3.And(H(LEN(t)) >= 0, H(LEN(t)) < 2 ** 32))
        vc.cover('end')
    return dict(name='cdb_hash', fn=fn, covers=['end'])


def counting_target():
    """What FileMade states of count and nth follows from their definitions, by induction."""
    def fn(vc):
        C, b = z3.Function('count', I, I), z3.Function('in_the_bucket', I, B)
        i, n, m, l = z3.Ints('i n m l')
        step = lambda x: C(x + 1) == C(x) + z3.If(b(x), 1, 0)
        vc.assume(C(0) == 0)
        vc.prove('from 0 to i: at 0', z3.And(C(0) >= 0, C(0) <= 0))
        vc.prove('from 0 to i: further', z3.Implies(z3.And(step(i), i >= 0, C(i) >= 0, C(i) <= i), z3.And(C(i + 1) >= 0, C(i + 1) <= i + 1)))
        vc.prove('never less: further', z3.Implies(z3.And(step(n), n >= i, C(i) <= C(n)), C(i) <= C(n + 1)))
        vc.prove('another one for each in the bucket', z3.Implies(z3.And(step(i), b(i), C(i + 1) <= C(n)), C(i) < C(n)))
        vc.prove('one that has m before it: none at 0', z3.Not(z3.And(m >= 0, m < C(0))))
        vc.prove('one that has m before it: further', z3.Implies(z3.And(step(n), n >= 0, m >= 0, m < C(n + 1), z3.Implies(m < C(n), z3.And(i >= 0, i < n, b(i), C(i) == m))),
                                                                 z3.Or(z3.And(i >= 0, i < n + 1, b(i), C(i) == m), z3.And(b(n), C(n) == m))))
        vc.prove('it is the only one', z3.Implies(z3.And(step(i), b(i), b(l), i < l, C(i + 1) <= C(l)), C(i) != C(l)))
        # k things have no more than k places: by induction on k. f(s) is the thing in place s, g the place of a thing, for n places
        f, h, k = z3.Function('thing_in', I, I), z3.Function('place_of', I, I), z3.Int('k')
        full = lambda f, h, x, n, k: z3.Implies(z3.And(x >= 0, x < n), z3.And(f(x) >= 0, f(x) < k, h(f(x)) == x))
        vc.prove('places: none without things', z3.Implies(z3.And(n > 0, full(f, h, z3.IntVal(0), n, z3.IntVal(0))), z3.BoolVal(False)))
        # the last place is emptied, and what is the last thing takes the number of the one that was in it
        last = n - 1
        f2 = lambda x: z3.If(f(x) == k, f(last), f(x))
        h2 = lambda y: z3.If(y == f(last), h(k), h(y))
        x = z3.Int('x')
        vc.prove('places: one thing less in one place less', z3.Implies(z3.And(k >= 0, n > k + 1, x >= 0, x < last, full(f, h, x, n, k + 1), full(f, h, last, n, k + 1)),
                                                                         z3.And(f2(x) >= 0, f2(x) < k, h2(f2(x)) == x)))
        vc.cover('end')
    return dict(name='lemmas on counting', fn=fn, covers=['end'])


WALKS = {'iteration': ('__iter__', 'kv'), 'iteritems()': ('iteritems', 'kv'), 'iterkeys()': ('iterkeys', 'k'), 'itervalues()': ('itervalues', 'v'),
         'items()': ('items', 'kv'), 'keys()': ('keys', 'k'), 'values()': ('values', 'v')}


def walk_target(name):
    method, what = WALKS[name]
    def fn(vc):
        fmt = L.FileRead(vc, table=False, q=False)
        want = lambda i: {'kv': (fmt.K(i), fmt.V(i)), 'k': (fmt.K(i),), 'v': (fmt.V(i),)}[what]
        def parts(v):
            if what == 'kv': return list(v) if isinstance(v, tuple) and len(v) == 2 else None
            return [v]
        def right(v, i):
            p = parts(v)
            if p is None: return False
            r = [is_value(x, t) for x, t in zip(p, want(i))]
            return False if any(x is False for x in r) else z3.And(r)
        db = used(vc, vc.call(Cdb, L.open_file(vc, fmt)))
        got = {}
        def inv(loop):
            out = []
            for n, x in L.ints(loop): out.append(('%s is the place of record k' % n, z3.And(loop.k <= fmt.N, x == fmt.P(loop.k))))
            for o, w, shape in loop.objects():
                if isinstance(o, PyList) and w == '*':
                    out.append(('as many as records', o.length() == loop.k))
                    if o.symbolic or o.items:
                        out.append(('in their order', IDX, lambda i, get=now(o), k=loop.k: z3.Implies(z3.And(i >= 0, i < k), right(get(i), i))))
                    else: out.append(('in their order', z3.BoolVal(True)))
            return out
        vc.invariants(inv)
        r = vc.method(db, method)
        out = PyList([], site='collected')
        if method.startswith('i') and method != 'items' or method == '__iter__':
            for x in vc.i.pull(vc.i.iter_(r), 'collecting'): ops.list_append(out, x)
        else: out = force(r)
        if not isinstance(out, PyList):
            vc.prove('a list is returned', False)
            return
        n = out.length()
        vc.prove('as many elements as items', n == fmt.N)
        vc.prove('the items in their order', lambda i: z3.Implies(z3.And(i >= 0, i < fmt.N), right(out.get(i), i)), IDX)
        vc.cover('end')
    return dict(name='Cdb ' + name, fn=fn, covers=['end'])


def targets(tier):
    out = [hash_target(), counting_target()] + [make_target(k) for k in itertools.product((bytes, str), repeat=2)]
    out += [walk_target(n) for n in WALKS] + [keys()] + cdbclf.targets(tier)
    for kind in (bytes, str):
        for present in (True, False):
            for how in ('[]', 'get', 'get with default'): out.append(read_target(how, kind, present))
    return out


# ---------------------------------------------------------------- the real code

COLLIDE = []
SPECIAL = [[b'\x97\xdc\xdc0\x02\x00', b'\x97\xdc\xc0\xac\x02\x00', b'\x97\xdd L#\x00', b'\x97\xdd$\xc8#\x00'],          # the hash is 0
           [b'', b'\x97\xdd H\x04\x06', b'\x97\xdd$\xcc\x04\x06'],                                                  # one begins the others
           [b'a', b'a\xd7\xd8\xb8`\x0f\x18', b'a\xd7\xd8\xa4\xfc\x0f\x18'], [b'key', b'key\x9f>\xdc\\\x0c\r', b'key\x9f>\xd8\xd8\x0c\r']]


def djb(b):
    h = 5381
    for c in b: h = ((h * 33) & 0xffffffff) ^ c
    return h


def colliding(rng):
    """Groups of keys: with the same hash, the same table, the same table and first slot of any small table."""
    if not COLLIDE:
        by, low, slot = {}, {}, {}
        for k in itertools.product(b'abcdefghijklmnopqrstuvwxyzABCDEFGH', repeat=3):
            k = bytes(k)
            h = djb(k)
            by.setdefault(h, []).append(k)
            low.setdefault(h & 255, []).append(k)
            slot.setdefault((h & 255, (h >> 8) % 840), []).append(k)
        for d in (by, low, slot): COLLIDE.append([g for g in d.values() if len(g) > 1])
        r = __import__('random').Random(1)
        full = {}
        for _ in range(300000):
            k = bytes(r.choice(b'abcdefghij0123456789') for _ in range(6))
            full.setdefault(djb(k), set()).add(k)
        COLLIDE.append([sorted(g) for g in full.values() if len(g) > 1])
        COLLIDE.append(SPECIAL)
    g = rng.choice(COLLIDE)
    if not g: g = COLLIDE[1]
    return rng.choice(g)


TEXT = ['', 'a', '\xe9', '\u20ac', '\U0001f600', 'key', 'Key', ' ', '\0', '\n', 'x' * 255, 'x' * 256, 'x' * 5000]


def one(rng, big=False):
    r = rng.random()
    if r < .3: return rng.choice(TEXT)
    if r < .4: return rng.choice(TEXT).encode('utf-8')
    if r < .8: return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 8, 20])))
    if r < .9: return 'w%d' % rng.randrange(2000)
    return bytes(rng.choice(b'\0\xff') for _ in range(rng.choice([1, 4, 8, 16, 3000 if big else 5])))


def cases(rng):
    yield dict(kind='cdb', items=[])
    for g in SPECIAL:
        yield dict(kind='cdb', items=[[k, k] for k in g], others=[])
        for i in range(len(g)): yield dict(kind='cdb', items=[[k, k] for k in g[:i] + g[i + 1:]], others=[g[i]])
    while True:
        r = rng.random()
        if r < .75:
            n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 60]) if r < .7 else rng.choice([255, 256, 257, 600, 1500])
            items, seen = [], set()
            group = colliding(rng) if rng.random() < .5 else []
            while len(items) < n:
                k = rng.choice(group) if group and rng.random() < .7 else one(rng)
                b = k.encode('utf-8') if isinstance(k, str) else k
                if b in seen:
                    if rng.random() < .2: n -= 1
                    continue
                seen.add(b)
                items.append([k, one(rng, True)])
            others = [k for k in group if k not in seen][:20] + [one(rng) for _ in range(10)]
            yield dict(kind='cdb', items=items, others=others, iterator=rng.random() < .3)
        else:
            words = [rng.choice(['saved state', 'b:x', 's:x', 'b:', 's:', 'a', '', '\xe9', 'x,y', '1,2', ':', b'b:x', b'\xff', b'', b'saved state', b'a', b's:saved state', 's:saved state', 'w\n'])
                     if rng.random() < .7 else one(rng) for _ in range(rng.randint(0, 12))]
            yield dict(kind='classifier', nham=rng.choice([0, 1, 7, 10 ** 6, 10 ** 12]), nspam=rng.choice([0, 1, 3, 10 ** 5]), words=[[w, rng.choice([0, 1, 2, 999]), rng.choice([0, 1, 5, 10 ** 9])] for w in words],
                       again=rng.random() < .5, reload=rng.choice([None, None, 'there', 'gone']))


def enc(x): return x.encode('utf-8') if isinstance(x, str) else x


def run_case(case):
    if case['kind'] == 'cdb':
        items = [tuple(x) for x in case['items']]
        want = [(enc(k), enc(v)) for k, v in items]
        with open('t.cdb', 'wb') as f:
            try: cdb_make(f, iter(items) if case.get('iterator') else items)
            except Exception as e: return 'cdb_make(%.100r) raised %r' % (items, e)
        d = dict(want)
        with open('t.cdb', 'rb') as f:
            try:
                c = Cdb(f)
                tests = [(k, enc(v)) for k, v in items] + [(k, None) for k in case.get('others', []) if enc(k) not in d]
                for k, v in tests[::-1] + tests[:50]:
                    got = c.get(k)
                    if got != v: return 'get(%.60r) of %d items is %.60r, not %.60r' % (k, len(items), got, v)
                    if c.get(k, b'dd') != (b'dd' if v is None else v): return 'get(%.60r, default)' % (k,)
                    try: got = c[k]
                    except KeyError: got = None
                    if got != v: return '[%.60r] of %d items is %.60r, not %.60r' % (k, len(items), got, v)
                    if v is not None and type(got) is not bytes: return 'type of the value of %.60r' % (k,)
                for name, got, w in (('iteration', list(c), want), ('items()', c.items(), want), ('iteritems()', list(c.iteritems()), want),
                                     ('keys()', c.keys(), [k for k, _ in want]), ('values()', c.values(), [v for _, v in want]),
                                     ('iterkeys()', list(c.iterkeys()), [k for k, _ in want]), ('itervalues()', list(c.itervalues()), [v for _, v in want])):
                    if got != w: return '%s gives %.100r, not %.100r' % (name, got, w)
                c.close()
            except Exception as e: return 'reading %d items raised %r' % (len(items), e)
        return None
    if os.path.exists('c.cdb'): os.remove('c.cdb')
    try:
        c = CDBClassifier('c.cdb')
        if c.nham or c.nspam or c.wordinfo: return 'a new CDBClassifier is not empty'
        c.nham, c.nspam = case['nham'], case['nspam']
        want = {}
        for w, h, s in case['words']:
            info = c.WordInfoClass()
            info.hamcount, info.spamcount = h, s
            c.wordinfo[w] = info
            want[w] = (h, s)
        for i in range(2 if case['again'] else 1):
            c.store()
            c = CDBClassifier('c.cdb')
            if (c.nham, c.nspam) != (case['nham'], case['nspam']): return 'totals %r' % ((c.nham, c.nspam),)
            if case.get('reload'):
                # what is loaded does not depend on what was there before
                if case['reload'] == 'gone':
                    os.remove('c.cdb')
                    c.load()
                    if c.nham or c.nspam or c.wordinfo: return 'load() without a file keeps words or totals'
                    return None
                c.wordinfo['another'] = c.WordInfoClass(1, 1)
                c.nham += 3
                c.load()
                if (c.nham, c.nspam) != (case['nham'], case['nspam']): return 'totals %r after load()' % ((c.nham, c.nspam),)
            got = {w: (x.hamcount, x.spamcount) for w, x in c.wordinfo.items()}
            if got != want: return 'words %.200r, not %.200r' % (got, want)
        return None
    except Exception as e: return 'CDBClassifier with %.100r raised %r' % (case['words'], e)
