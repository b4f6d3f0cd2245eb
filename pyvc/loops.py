"""Loops by invariant."""
import z3
from . import core, ops
from .core import *


class LoopInfo:
    def __init__(self):
        self.mods = {}            # (oid, what) -> shape
        self.order = []
        self.dropped = set()
        self.growing = set()      # names of measures that do not decrease
        self.measure = None       # the one that does on all paths so far


class LoopTracker:
    def __init__(self, clock):
        self.clock = clock
        self.writes = {}

    def record(self, obj, what, sample):
        if obj.stamp > self.clock: return
        shape = None
        for s in sample:
            if isinstance(s, tuple) and s and s[0] == 'kv':
                shape = ('kv', key_shape(s[1]), safe_shape(s[2]))
            elif isinstance(s, tuple) and s and s[0] == 'k':
                shape = ('kv', key_shape(s[1]), None)
            elif isinstance(s, tuple) and s and s[0] == 'e':
                shape = ('elem', safe_shape(s[1]))
            else:
                shape = safe_shape(s)
        self.record_shape(obj, what, shape)

    def record_shape(self, obj, what, shape):
        if obj.stamp > self.clock: return
        k = (obj.oid, what)
        self.writes[k] = join_w(self.writes.get(k), shape)


def safe_shape(v):
    s = shape_of(v)
    return s


def key_shape(k):
    return keyterm(k).sort()


def join_w(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == 'kv' and b[0] == 'kv':
        return ('kv', a[1] if a[1] is not None else b[1], join_shape(a[2], b[2]))
    if a[0] == 'elem' and b[0] == 'elem': return ('elem', join_shape(a[1], b[1]))
    return join_shape(a, b)


class Loop:
    def __init__(self, interp, key, it):
        self.interp = interp
        self.key = key
        self.it = it
        self.cx = core.cx()
        self.engine = self.cx.engine
        self.info = self.engine.loopinfo.setdefault(key, LoopInfo())
        self.func = key[3][-1] if key[3] else ''
        self.callstack = key[3]
        self.kind = it.kind if it is not None else 'while'
        self.k = z3.IntVal(0)
        self.done = lambda t: z3.BoolVal(False)
        self.cur = None
        self.tracker = None
        self.env = None
        self.entry_snapshot = None
        self.phase = None
        self.skolems = {}
        self.before = None

    def __enter__(self):
        self.cx.ghost.setdefault('loops', []).append(self)
        h = self.cx.ghost.get('loopentry')
        if h is not None: h(self)
        return self

    def __exit__(self, *exc):
        loops = self.cx.ghost.get('loops', [])
        if self in loops: loops.remove(self)
        self.stop()
        return False

    def stop(self):
        if self.tracker is not None and self.tracker in self.cx.trackers:
            self.cx.trackers.remove(self.tracker)
        self.tracker = None

    def leave(self):
        self.stop()

    # state

    def name(self):
        return '%s:%s' % (self.func, self.key[2].lower())

    def objects(self):
        for (oid, what) in self.info.order:
            o = self.cx.objects.get(oid)
            if o is not None: yield o, what, self.info.mods[(oid, what)]

    def locals(self):
        """(name, value) of the modified local variables of numeric shape."""
        from .interp import Env
        for o, what, shape in self.objects():
            if isinstance(o, Env) and what in o.vars:
                yield o, what, o.vars[what]

    def candidates(self):
        out = []
        f = self.cx.ghost.get('invariants')
        if f is not None: out += list(f(self))
        for i, (o, what, v) in enumerate(self.locals()):
            nm = '%s.%s' % (o.name, what)
            if isinstance(v, (SInt, int)) and not isinstance(v, bool):
                t = ops.intterm(v)
                out.append(('%s >= 0' % nm, t >= 0))
            if isinstance(v, SAlt) and v.alts and v.alts[0][1] is UNBOUND and self.kind == 'seq':
                out.append(('%s bound after first' % nm, z3.Implies(self.k > 0, z3.Not(v.alts[0][0]))))
            elif self.kind == 'seq' and not isinstance(v, SAlt):
                pass
        return [x for x in out if x[0] not in self.info.dropped]

    def exists(self, name, sorts, witness_sort, holds, witnesses=lambda *t: [], register=None):
        """A candidate: for all terms there is a w with holds(terms, w). It is
        assumed for a new function of the terms, and proved for one of the
        witnesses or for what that function gave before."""
        if not isinstance(sorts, tuple): sorts = (sorts,)
        if self.phase == 'assume':
            f = self.cx.fresh_fun('wit', [I if isinstance(s, str) else s for s in sorts], witness_sort)
            self.skolems[name] = f
            def fact(*t):
                w = f(*t)
                (register or (lambda w: self.cx.register_index(w) if witness_sort == I else self.cx.register(w)))(w)
                return holds(t, w)
            return (name, sorts, fact)
        def goal(*t):
            ws = list(witnesses(*t))
            if name in self.skolems: ws.append(self.skolems[name](*t))
            for w in ws:
                (register or (lambda w: self.cx.register_index(w) if witness_sort == I else self.cx.register(w)))(w)
            return z3.Or(*[holds(t, w) for w in ws]) if ws else self.nothing(holds, t, witness_sort)
        return (name, sorts, goal)

    def function(self, name, sort, witness_sort, picks):
        """A function that candidates may use. It is any function where they are
        assumed; where they are proved it is the first of the picks whose
        condition holds, or what it was before."""
        if self.phase == 'assume':
            f = self.skolems[name] = self.cx.fresh_fun('fun', [sort], witness_sort)
            self.cx.ghost.setdefault('functions', []).append((name, f))
            return f
        old = self.skolems.get(name)
        default = z3.IntVal(-1) if witness_sort == I else z3.Const('no_' + name, witness_sort)
        def g(t):
            r = old(t) if old is not None else default
            for c, v in reversed(picks(t)): r = z3.If(c, v, r)
            return r
        return memo1(g)

    def nothing(self, holds, t, sort):
        """Without a witness it holds only where it holds for any."""
        return holds(t, self.cx.fresh('any', sort))

    def prove_all(self, why):
        if self.cx.replaying: return
        self.phase = 'prove'
        bad = []
        for cand in self.candidates():
            r = self.engine.try_prove(cand[1] if len(cand) == 2 else cand[2], cand[1] if len(cand) == 3 else None)
            if r != 'proved': bad.append((cand[0], why + ': ' + r))
            else: self.engine.count_invariant(self, cand[0], why)
        for name, r in bad:
            self.info.dropped.add(name)
            self.engine.note_drop(self, name, r)
        if bad: raise Restart()

    def assume_all(self):
        self.phase = 'assume'
        for cand in self.candidates():
            if len(cand) == 2: self.cx.assume(ops.as_term_bool(cand[1]))
            else: self.cx.add_fact(cand[1], cand[2], cand[0])

    def entry(self):
        self.prove_all('entry')

    def havoc(self):
        cc = self.cx
        if self.it is None or self.kind == 'seq':
            self.k = cc.fresh('k', I)
            cc.assume(self.k >= 0)
            cc.register_index(self.k)
            if self.it is not None and self.it.n is not None: cc.assume(self.k <= self.it.n)
        else:
            f = cc.fresh_fun('done', [self.it.sort], B)
            self.done = lambda t: f(t)
            mem = self.it.mem
            cc.add_fact(self.it.sort, lambda t: z3.Implies(f(t), mem(t)), 'done subset')
        for o, what, shape in list(self.objects()):
            havoc_object(o, what, shape)
        self.assume_all()

    def begin_iteration(self):
        cc = self.cx
        v = None
        if self.it is not None:
            if self.kind == 'seq':
                if self.it.n is not None: cc.assume(self.k < self.it.n)
                for f in getattr(self.it, 'exc', ()):
                    f(self.k)
                v = self.it.elem(self.k)
            else:
                self.cur = cc.fresh('cur', self.it.sort)
                cc.register(self.cur)
                cc.assume(self.it.mem(self.cur))
                cc.assume(z3.Not(self.done(self.cur)))
                v = mkkey(self.cur)
            if cc.dead(): raise PathEnd()
        self.tracker = LoopTracker(cc.clock)
        cc.trackers.append(self.tracker)
        return v

    def end_iteration(self):
        cc = self.cx
        tr = self.tracker
        self.stop()
        for k, what in list(tr.writes):
            o = cc.objects.get(k)
            if isinstance(o, PyDict) and not o.symbolic and what == '*':
                for key, v in o.items:
                    if isinstance(v, PyList): tr.record_shape(o, '*', ('kv', key_shape(key), safe_shape(v)))
        changed = False
        for k, shape in tr.writes.items():
            old = self.info.mods.get(k)
            if k not in self.info.mods:
                o = cc.objects.get(k[0])
                self.info.mods[k] = shape
                self.info.order.append(k)
                changed = True
            else:
                new = join_w(old, shape)
                if new != old:
                    self.info.mods[k] = new
                    changed = True
        if changed: raise Restart()
        if self.it is None or self.kind == 'seq':
            self.k = z3.simplify(self.k + 1)
            cc.register_index(self.k)
        else:
            d, cur = self.done, self.cur
            self.done = lambda t: z3.Or(d(t), t == cur)
        self.prove_all('preserved')
        self.count_down()
        self.engine.iteration_done(self)
        raise PathEnd()

    # the end of the loop

    def quantities(self):
        """name -> term of what is known as a number in the scope of the loop."""
        from .interp import Env
        out = {}
        def add(name, v):
            try:
                if isinstance(v, SAlt) and len(v.alts) == 1: v = v.alts[0][1]
                if isinstance(v, bool): return
                if isinstance(v, (int, SInt)): out[name] = ops.intterm(v)
                elif isinstance(v, (str, bytes, SStr, SText)): out['len(%s)' % name] = ops.intterm(ops.length(v))
                elif isinstance(v, PyList) and v.symbolic: out['len(%s)' % name] = ops.intterm(v.n)
            except (Unsupported, z3.Z3Exception): pass
        e = self.scope
        depth = 0
        while isinstance(e, Env):
            for n, v in list(e.vars.items()):
                add('%s%s' % ("'" * depth, n), v)
                if isinstance(v, Obj):
                    for f, w in list(v.fields.items()): add('%s.%s' % (n, f), w)
            e, depth = e.parent, depth + 1
        return out

    def watch(self, scope):
        """At the start of an iteration of a loop that nothing given limits."""
        self.scope = scope
        self.before = self.quantities()
        f = self.cx.ghost.get('measures')
        self.given = list(f(self)) if f is not None else []

    def count_down(self):
        """At its end: one measure must have decreased, and not been negative."""
        if self.cx.replaying or self.before is None: return
        now = self.quantities()
        old = self.before
        changed = {n for n, t in now.items() if n in old and not t.eq(old[n])}
        f = self.cx.ghost.get('measures')
        after = dict(f(self)) if f is not None else {}
        pairs = [(n, t, after[n]) for n, t in self.given if n in after]
        for a in sorted(changed):
            pairs.append((a, old[a], now[a]))
            for b in sorted(now):
                if a == b or b not in old: continue
                pairs.append(('%s - %s' % (b, a), old[b] - old[a], now[b] - now[a]))
                if b not in changed: pairs.append(('%s - %s' % (a, b), old[a] - old[b], now[a] - now[b]))
        info = self.info
        case = self.cx.ghost.get('endscase') or (lambda loop: z3.BoolVal(True))      # the case that stands for all
        if info.measure: pairs.sort(key=lambda p: p[0] != info.measure)
        for n, x, y in pairs[:80]:
            if n in info.growing: continue
            if self.engine.try_prove(z3.Implies(case(self), z3.And(x >= 0, y < x))) == 'proved':
                if info.measure != n:
                    first = info.measure is None
                    info.measure = n
                    if not first: raise Restart()
                self.engine.ends[self.name()] = n
                return
            info.growing.add(n)
        info.measure = False
        self.engine.ends[self.name()] = None
        if self.cx.ghost.get('ends'): raise Unsupported('a loop that may not end: %s' % self.name())

    def exit_assume(self):
        cc = self.cx
        if self.kind == 'seq':
            if self.it.n is not None: cc.assume(self.k == self.it.n)
            for f in getattr(self.it, 'exc_end', ()): f(self.k)
        else:
            d, mem = self.done, self.it.mem
            cc.add_fact(self.it.sort, lambda t: d(t) == mem(t), 'all done')
        if cc.dead(): raise PathEnd()


def havoc_object(o, what, shape):
    from .interp import Env, _Heap
    cc = core.cx()
    if isinstance(o, Env) or isinstance(o, Obj) or (isinstance(o, Ext) and what in getattr(o, 'fields', ())):
        d = o.vars if isinstance(o, Env) else o.fields
        cur = d.get(what, UNBOUND)
        shape = join_shape(shape_of(cur), shape)
        if shape[0] == 'alt':
            alts = list(shape[1])
            alts.sort(key=lambda s: s[0] != 'unbound')
            shape = ('alt', tuple(alts))
        wrote(o, what, shape)
        d[what] = fresh_shape(shape, str(what), local=isinstance(o, Env))
        return
    if isinstance(o, _Heap):
        if what == 'next':
            wrote(o, what, ('int',))
            old = cc.next_ref
            cc.next_ref = cc.fresh('next', I)
            cc.assume(cc.next_ref >= old)
            return
        shape = join_shape(shape_of(cc.heap[what](z3.Int('shape_probe'))), shape)
        wrote(o, what, shape)
        mk = FunMaker(shape, 'heap_%s' % what[1], [I])
        cc.heap[what] = memo1(lambda r: mk(r))
        return
    if isinstance(o, PySet):
        sort = o.sort
        if sort is None and shape is not None and shape[0] == 'kv': sort = shape[1]
        if sort is None and o.items: sort = keyterm(o.items[0]).sort()
        if sort is None: raise Unsupported('set of unknown elements')
        f = cc.fresh_fun('set', [sort], B)
        o.set_mem(lambda t: f(t), sort)
        wrote(o, '*', ('kv', sort, None))
        return
    if isinstance(o, PyDict):
        sort = o.sort
        vs = None
        if shape is not None and shape[0] == 'kv':
            sort = sort if sort is not None else shape[1]
            vs = shape[2]
        if not o.symbolic:
            for k, v in o.items:
                sort = sort if sort is not None else keyterm(k).sort()
                vs = join_shape(vs, shape_of(v))
                if isinstance(v, PyList): v.spoil()
        elif sort is not None:
            probe = z3.Const('key_probe', sort)
            try: vs = join_shape(vs, shape_of(o._val(probe)))
            except Unsupported: pass
        if sort is None or vs is None: raise Unsupported('dict of unknown elements')
        wrote(o, '*', ('kv', sort, vs))
        mk = FunMaker(vs, 'dict', [sort])
        f = cc.fresh_fun('dom', [sort], B)
        o.set_sym(lambda t: f(t), lambda t: mk(t), sort)
        return
    if isinstance(o, PyList):
        es = shape[1] if shape is not None and shape[0] == 'elem' else None
        cur = shape_of(o)[1]
        es = join_shape(es, cur)
        if es is None: raise Unsupported('list of unknown elements')
        wrote(o, '*', ('elem', es))
        mk = FunMaker(es, 'list', [I])
        n = cc.fresh('len', I)
        cc.assume(n >= 0)
        o.set_sym(n, lambda i: mk(i))
        return
    if hasattr(o, 'havoc'):
        wrote(o, what, shape)
        o.havoc(what, shape)
        return
    raise Unsupported('cannot generalise %r' % (o,))


def wrote(o, what, shape):
    for tr in core.cx().trackers: tr.record_shape(o, what, shape)
