"""Models of built-in functions, types and methods."""
import itertools
import logging
import math
import types

import z3
from . import core, ops
from .core import *
from .interp import Interp, Bound, Builtin, Closure, GenObj, ModelMethod, MISSING, Partial
from .ops import raise_, is_concrete, mkint, mkbool, mkreal


# --------------------------------------------------------------------------
# symbolic collections: enumeration of the elements

def stage_eval(it):
    """t -> (keep: Bool term, value) for one element of the base collection."""
    stages = list(it.stages)
    def run(v0, raises='drop'):
        def thunk():
            keep, v = True, v0
            for st in stages:
                keep, v = st(v)
                if not keep: return (False, 0)
            return (True, v)
        return merge_eval2(thunk, raises)
    def start(t): return mkkey(t) if it.kind == 'set' else it.elem(t)
    if stages:
        # Evaluated now for an arbitrary element: that no element raises, and
        # the value as a function of the element.
        cc = core.cx()
        base = it.sort if it.kind == 'set' else I
        inside = it.mem if it.kind == 'set' else (lambda t: z3.And(t >= 0, t < it.n))
        t0 = cc.fresh('any', base)
        gen, cc.gen = cc.gen, 0
        template = None
        cc.push()
        try:
            cc.register(t0)
            if base == I: cc.register(t0, IDX)
            cc.assume(inside(t0))
            v0 = start(t0)
            cnt = dict(cc.counter)
            cc.push()
            try:
                try: keep, v = run(v0, False)
                except PathEnd: keep, v = z3.BoolVal(False), None
                keep = ops.as_term_bool(keep)
            finally:
                added, newfacts, newterms = cc.pop()
            if cc.counter == cnt and not newfacts:
                try:
                    subst_value(v, [(t0, t0)])
                    template = (keep, v)
                except NotPlain: pass
        finally:
            cc.gen = gen
            cc.pop()
        if template is not None:
            all_kept = z3.is_true(z3.simplify(keep))
            def at(t):
                cc = core.cx()
                pairs = [(t0, t)]
                start(t)
                for f in added: cc.assume(z3.Implies(inside(t), z3.substitute(f, *pairs)))
                for k, x in newterms: cc.register(z3.substitute(x, *pairs), k)
                return z3.substitute(keep, *pairs), subst_value(v, pairs)
            r = memo1(at)
            r.all_kept = all_kept
            return r
        # not a plain value: evaluated for each element, in the state of now
        writes = cc.nwrites
        def at(t):
            if core.cx().nwrites != writes: raise Unsupported('late evaluation of a collection')
            return run(start(t))
        return memo1(at)
    return memo1(lambda t: run(start(t)))


def merge_eval2(thunk, raises=False):
    """merge_eval for (keep, value): values of dropped elements do not matter."""
    got = []
    def t2():
        keep, v = thunk()
        return (keep, v)
    # results are merged pairwise: drop the value where not kept
    c = core.cx()
    res = merge_pairs(t2, raises)
    return res


def merge_pairs(thunk, raises=False):
    holder = []
    def th():
        keep, v = thunk()
        return Pair(keep, v)
    try: r = merge_eval(th, raises)
    except PathEnd: return z3.BoolVal(False), None
    if isinstance(r, Pair): return z3.BoolVal(bool(r.keep)), r.v
    # SAlt of Pairs
    keep = z3.Or([g for g, p in r.alts if p.keep] or [z3.BoolVal(False)])
    v = None
    for g, p in reversed([a for a in r.alts if a[1].keep]):
        v = p.v if v is None else ite(g, p.v, v)
    return keep, v


class Pair(V):
    def __init__(self, keep, v):
        self.keep = keep
        self.v = v


def enumerate_sym(it, order=None, site='enum', reverse=False):
    """A symbolic list of the elements of `it`.

    order: function(value_i, value_j) -> value_i may come before value_j, or
    None: the order of a sequence, any order for a set.

    """
    cc = core.cx()
    for f in getattr(it, 'exc_all', ()): f()
    if it.kind == 'seq' and not it.stages and order is None:
        g = it.elem
        l = PyList(n=it.n, get=memo1(lambda i: g(i)), site=site)
        return l
    at = stage_eval(it)
    if it.kind == 'seq' and order is None and getattr(at, 'all_kept', False):
        return PyList(n=it.n, get=memo1(lambda i: at(i)[1]), site=site)
    if it.kind == 'set':
        base, inside = it.sort, it.mem
    else:
        base = I
        inside = lambda t: z3.And(t >= 0, t < it.n)
    n = cc.fresh('n', I)
    cc.assume(n >= 0)
    if it.n is not None and (not it.stages or getattr(at, 'all_kept', False)): cc.assume(n == it.n)
    elif it.n is not None: cc.assume(n <= it.n)
    src = cc.fresh_fun('src', [I], base)
    idx = cc.fresh_fun('idx', [base], I)
    srcname = src.name()
    pkey = 'perm:' + srcname                  # the universe of indices of this list
    bkey = 'base:' + srcname
    def reg_i(i):
        cc.register(i, pkey)
    def f_in(i):
        t = src(i)
        if base != I: cc.register(t)
        elif order is not None: cc.register_index(t)
        cc.register(t, bkey)
        keep, v = at(t)
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(inside(t), keep, idx(t) == i))
    def f_out(t):
        keep, v = at(t)
        if not (z3.is_app(t) and t.decl().name() == srcname):
            reg_i(idx(t))
        return z3.Implies(z3.And(inside(t), keep), z3.And(idx(t) >= 0, idx(t) < n, src(idx(t)) == t))
    l = PyList(n=n, get=None, site=site)
    def get(i):
        cc.register(i, pkey)
        return at(src(i))[1]
    l._get = memo1(get)
    l.srcinfo = (src, idx, at, inside, it)
    if not cc.subs: cc.ghost.setdefault('enums', []).append((idx, base, pkey))
    cc.add_fact(pkey, f_in, 'enum in')
    if base == I:
        cc.add_fact(bkey, f_out, 'enum complete')
        cc.add_fact(IDX, f_out, 'enum complete')
    else: cc.add_fact(base, f_out, 'enum complete')
    if it.kind == 'seq' and order is None:
        cc.add_fact((pkey, pkey), lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), src(i) < src(j)), 'enum order')
    if order is not None:
        def f_ord(i, j):
            if i.eq(j): return None
            a, b = at(src(i))[1], at(src(j))[1]
            if reverse: a, b = b, a
            r = order(a, b)
            return z3.Implies(z3.And(0 <= i, i < j, j < n), ops.as_term_bool(r))
        # 'first': the target says which positions it compares
        okey = pkey if cc.ghost.get('order') != 'first' else 'order'
        cc.add_fact((okey, okey), f_ord, 'enum sorted')
    return l


def is_record(x):
    fx = force_first(x)
    return isinstance(fx, SRef) or fx is None


def comparable(k):
    """A sort key up to the first component without an order: check_orderable
    shows that no comparison gets that far."""
    if isinstance(k, tuple):
        for i, x in enumerate(k):
            if is_record(x): return k[:i]
            if isinstance(x, tuple):
                y = comparable(x)
                if len(y) < len(x): return k[:i] + (y,)
    return k


def order_of(interp, key):
    def order(a, b):
        ka = comparable(apply_pure(interp, key, a))
        kb = comparable(apply_pure(interp, key, b))
        if core.cx().ghost.get('order') == 'first':     # a weaker fact: what is compared first
            while isinstance(ka, tuple) and isinstance(kb, tuple) and ka and kb: ka, kb = force_first(ka[0]), force_first(kb[0])
        return ops.not_(ops.lt(kb, ka))
    return order


def apply_pure(interp, key, v):
    if key is None: return v
    return merge_eval(lambda: interp.apply(key, [v], {}))


def check_orderable(interp, l, key):
    """Two elements never tie in every component that has an order."""
    cc = core.cx()
    if cc.replaying or cc.subs: return
    g, n = l._get, l.n
    def goal(i, j):
        a, b = apply_pure(interp, key, g(i)), apply_pure(interp, key, g(j))
        ca = comparable(a)
        if not isinstance(a, tuple) or ca is a: return None
        e = ops.as_term_bool(ops.eq(ca, comparable(b)))
        return z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), z3.Not(e))
    cc.engine.prove('sorting compares only what has an order', goal, (I, I))


def sort_list(interp, l, key=None, reverse=False):
    """In place sort of a PyList (already checked writable)."""
    cc = core.cx()
    if not l.symbolic:
        items = l.items
        if all(is_concrete(x) for x in items) and key is None:
            try: l.items = sorted(items, reverse=reverse)
            except TypeError as e: raise PyRaise(ExcVal(TypeError, e.args))
            return
        ks = [interp.apply(key, [x], {}) if key else x for x in items]
        # insertion sort with branching comparisons, stable
        out = []
        for x, k in zip(items, ks):
            j = len(out)
            while j > 0:
                a, b = k, out[j - 1][1]
                if reverse: a, b = b, a
                if cc.branch(ops.lt(a, b)): j -= 1
                else: break
            out.insert(j, (x, k))
        l.items = [x for x, _ in out]
        return
    n, g = l.n, l._get
    it = SymIter('seq', n, lambda i: g(i))
    r = enumerate_sym(SymIter('seq', n, lambda i: g(i), stages=[lambda v: (True, v)]),
                      order_of(interp, key), 'sort', reverse)
    cc.assume(r.n == n)
    check_orderable(interp, r, key)
    l.set_sym(n, r._get)
    l.srcinfo = r.srcinfo


def to_pylist(interp, v, site='tolist'):
    """list(v)"""
    it = interp.drain(v)
    if isinstance(it, SymIter): return enumerate_sym(it, None, site)
    l = PyList([], site=site)
    for x in interp.pull(it, 'list'): ops.list_append(l, x)
    return l


def setname(v): return v


def to_set(interp, v, site='toset', drained=False):
    cc = core.cx()
    it = interp.iter_(v) if drained else interp.drain(v)
    if not isinstance(it, SymIter):
        s = PySet([], site=site)
        for x in interp.pull(it, 'set'): ops.set_add(s, force(x))
        return s
    for f in getattr(it, 'exc_all', ()): f()
    if it.kind == 'set' and not it.stages:
        s = PySet(mem=it.mem, site=site, sort=it.sort, size=it.n)
        return s
    at = stage_eval(it)
    if it.kind == 'set':
        probe = cc.fresh('probe', it.sort)
        cc.push(); cc.assume(it.mem(probe))
        try: keep, v0 = at(probe)
        finally: cc.pop()
        if v0 is not None and isinstance(v0, (STok, SInt, SStr)) and v0.t.eq(probe):
            mem0 = it.mem
            return PySet(mem=memo1(lambda t: z3.And(mem0(t), at(t)[0])), site=site, sort=it.sort)
        base, inside = it.sort, it.mem
    else:
        base, inside = I, (lambda t: z3.And(t >= 0, t < it.n))
        probe = cc.fresh('probe', I)
        keep, v0 = at(probe)
    v0 = force_first(v0)
    sort = keyterm(v0).sort()
    mem = cc.fresh_fun('image', [sort], B)
    wit = cc.fresh_fun('wit', [sort], base)
    def f1(t):
        w = wit(t)
        cc.register(w, IDX if base == I else None)
        keep, v = at(w)
        return z3.Implies(mem(t), z3.And(inside(w), keep, ops.as_term_bool(ops.eq(v, mkkey(t)))))
    def f2(b):
        keep, v = at(b)
        if v is None: return None
        return z3.Implies(z3.And(inside(b), keep), mem(keyterm(v)))
    cc.add_fact(sort, f1, 'image of')
    cc.add_fact(IDX if base == I else base, f2, 'image in')
    s = PySet(mem=lambda t: mem(t), site=site, sort=sort)
    s.image = (mem, wit, at, inside, it)
    return s


def force_first(v):
    while isinstance(v, SAlt): v = v.alts[0][1]
    return v


def to_dict(interp, v, kw, site='todict'):
    cc = core.cx()
    d = PyDict([], site=site)
    if v is not None:
        v = force(v)
        if isinstance(v, PyDict):
            if v.symbolic:
                d.set_sym(v._dom, v._val, v.sort)
                d.size = v.size
            else: d.items = [list(p) for p in v.items]
        else:
            it = interp.drain(v)
            if isinstance(it, SymIter): return dict_of_sym(interp, it, site)
            for p in interp.pull(it, 'dict'):
                k, x = interp.unpack(p, [None, None])
                ops.dict_set(d, force(k), x)
    for k, x in kw.items(): ops.dict_set(d, k, x)
    return d


def dict_of_sym(interp, it, site):
    cc = core.cx()
    at = stage_eval(it)
    seq = it.kind == 'seq'
    base, inside = (I, lambda t: z3.And(t >= 0, t < it.n)) if seq else (it.sort, it.mem)
    probe = cc.fresh('probe', base)
    cc.push(); cc.assume(inside(probe))
    try: keep, v0 = at(probe)
    finally: cc.pop()
    if not (isinstance(v0, tuple) and len(v0) == 2): raise Unsupported('dict of pairs')
    if isinstance(v0[0], (STok, SInt, SStr)) and v0[0].t.eq(probe):
        mem0 = it.mem
        d = PyDict(dom=memo1(lambda t: z3.And(mem0(t), at(t)[0])), val=memo1(lambda t: at(t)[1][1]), site=site, sort=it.sort)
        return d
    # keys are an image: last one wins; only for injective keys
    k0 = force_first(v0[0])
    sort = keyterm(k0).sort()
    dom = cc.fresh_fun('dom', [sort], B)
    wit = cc.fresh_fun('wit', [sort], base)
    def f1(t):
        w = wit(t)
        keep, v = at(w)
        if seq: cc.register_index(w)
        else: cc.register(w)
        return z3.Implies(dom(t), z3.And(inside(w), keep, ops.as_term_bool(ops.eq(v[0], mkkey(t)))))
    def f2(b):
        keep, v = at(b)
        if v is None: return None
        k = keyterm(v[0])
        # of the pairs of a sequence with the same key, the last one stays; a set may come in any order
        return z3.Implies(z3.And(inside(b), keep), z3.And(dom(k), b <= wit(k)) if seq else dom(k))
    cc.add_fact(sort, f1, 'dict keys')
    cc.add_fact(IDX if seq else it.sort, f2, 'dict keys in')
    return PyDict(dom=lambda t: dom(t), val=memo1(lambda t: at(wit(t))[1][1]), site=site, sort=sort)


# --------------------------------------------------------------------------
# strings

def concat(parts):
    parts = [p for p in parts if not (isinstance(p, str) and p == '')]
    if all(isinstance(p, str) for p in parts): return ''.join(parts)
    if any(isinstance(p, SText) for p in parts): return SText(str)
    if any(isinstance(p, Ext) for p in parts):
        r = parts[0]
        for p in parts[1:]:
            if hasattr(r, 'm___add__'): r = r.m___add__(None, [p], {})
            elif hasattr(p, 'm___radd__'): r = p.m___radd__(None, [r], {})
            else: r = ops.binop('Add', r, p)
        return r
    ts = [ops.strterm(p) for p in parts]
    return SStr(ts[0] if len(ts) == 1 else z3.Concat(*ts), str)


class FmtArg:
    pass


def format_value(interp, v, conv, spec):
    v = force(v)
    if is_concrete(v) and is_concrete(spec):
        try:
            if conv == 'r': v = repr(v)
            elif conv == 's': v = str(v)
            elif conv == 'a': v = ascii(v)
            return format(v, spec)
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
    h = core.cx().ghost.get('format')
    if h is not None:
        r = h(interp, v, conv, spec)
        if r is not None: return r
    if conv in ('', 's') and spec == '':
        if isinstance(v, SStr) and v.kind is str: return v
        if isinstance(v, SInt): return SStr(ops.int_to_str(v.t), str)
    if isinstance(v, Ext) and conv in ('', 's') and spec == '' and hasattr(v, 'm___str__'): return v.m___str__(interp, [], {})
    return SText(str)


def do_format(interp, fmt, args, kw):
    import string
    parts = []
    auto = 0
    try:
        parsed = list(string.Formatter().parse(fmt))
    except ValueError as e:
        raise PyRaise(ExcVal(ValueError, e.args))
    for lit, field, spec, conv in parsed:
        if lit: parts.append(lit)
        if field is None: continue
        name = field
        rest = ''
        for i, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:i], field[i:]
                break
        if name == '':
            k = auto
            auto += 1
        elif name.isdigit(): k = int(name)
        else: k = name
        if isinstance(k, int):
            if k >= len(args): raise_(IndexError, 'Replacement index out of range')
            v = args[k]
        else:
            if k not in kw: raise_(KeyError, k)
            v = kw[k]
        if rest: raise Unsupported('format field ' + field)
        if spec and '{' in spec:
            sub = []
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                if l2: sub.append(l2)
                if f2 is None: continue
                if f2 == '':
                    w = args[auto]; auto += 1
                elif f2.isdigit(): w = args[int(f2)]
                else: w = kw[f2]
                sub.append(format_value(interp, w, '', s2 or ''))
            spec = concat(sub)
        parts.append(format_value(interp, v, conv or '', spec or ''))
    return concat(parts)


def isstr_one(v):
    """v is a text of one character; None: not known."""
    if isinstance(v, str): return len(v) == 1
    if isinstance(v, SStr) and v.kind is str: return core.cx().branch(z3.Length(v.t) == 1)
    if isinstance(v, SText): return None
    return False


def percent_format(interp, fmt, arg):
    if is_concrete(fmt) and is_concrete(arg):
        try: return fmt % arg
        except Exception as e: raise PyRaise(ExcVal(type(e), e.args))
    if not isinstance(fmt, str):
        if ops.kindof(fmt) is bytes and any(ops.isstr(force(x)) and ops.kindof(force(x)) is str for x in (arg if isinstance(arg, tuple) else [arg])):
            raise_(TypeError, '%b requires a bytes-like object')
        return SText(ops.kindof(fmt))
    h = core.cx().ghost.get('percent')
    if h is not None:
        r = h(interp, fmt, arg)
        if r is not None: return r
    import re
    args = list(arg) if isinstance(arg, tuple) else [arg]
    parts = []
    pos = 0
    for m in re.finditer(r'%(%|s|d|c)', fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%': parts.append('%')
        else:
            if not args: raise_(TypeError, 'not enough arguments for format string')
            if m.group(1) == 'c':
                v = force(args.pop(0))
                if isinstance(v, (int, SInt)) and not isinstance(v, bool): v = chr(v) if isinstance(v, int) else SStr(z3.StrFromCode(v.t), str)
                elif isstr_one(v) is False: raise_(TypeError, '%c requires int or char')
                elif isstr_one(v) is None: return SText(str)
                parts.append(v)
                continue
            if m.group(1) == 'd' and isinstance(force(args[0]), (str, bytes, SStr, SText, type(None), Obj, Ext)): raise_(TypeError, '%d format: a number is required')
            if m.group(1) == 'd' and isinstance(force(args[0]), (SReal, float)): return SText(str)
            parts.append(format_value(interp, args.pop(0), '', ''))
    rest = fmt[pos:]
    if '%' in rest or any('%' in p for p in parts if isinstance(p, str) and p != '%'): return SText(str)
    parts.append(rest)
    return concat(parts)


# --------------------------------------------------------------------------
# methods of built-in types

def call_builtin(self, obj, name, args, kw):
    cc = core.cx()
    if obj is None and name == 'noop': return None
    if isinstance(obj, Ext):
        return getattr(obj, 'm_' + name)(self, args, kw)
    if isinstance(obj, PyList):
        m = globals().get('list_' + name)
    elif isinstance(obj, PyDict):
        m = globals().get('dict_' + name)
    elif isinstance(obj, PySet):
        m = globals().get('set_' + name)
    elif isinstance(obj, (GenObj, SymIter)):
        if name == '__next__': return self.b_next([obj], {})
        if name == '__iter__': return obj
        if name == 'close': return None
        raise Unsupported('method %s of an iterator' % name)
    elif isinstance(obj, (str, bytes, SStr, SText)):
        h = cc.ghost.get('strmethod')
        if h is not None:
            r = h(self, obj, name, args, kw)
            if r is not None: return r[0]
        if is_concrete(obj) and all(map(is_concrete, args)) and all(map(is_concrete, kw.values())):
            return native(self, getattr(obj, name), args, kw)
        m = globals().get('str_' + name)
        if m is None and isinstance(obj, SText): m = text_method(name)
        if m is None and name in dir(ops.kindof(obj)): raise Unsupported('str.%s' % name)
    elif isinstance(obj, STok):
        h = cc.ghost.get('tokmethod')
        if h is not None:
            r = h(self, obj, name, args, kw)
            if r is not None: return r[0]
        raise Unsupported('method %s of a token' % name)
    elif isinstance(obj, tuple):
        if name == 'index':
            for i, x in enumerate(obj):
                if cc.branch(ops.eq(x, args[0])): return i
            raise_(ValueError, 'not in tuple')
        if name == 'count' and is_concrete(obj) and is_concrete(args[0]): return obj.count(args[0])
        raise Unsupported('tuple.%s' % name)
    elif is_concrete(obj) and all(map(is_concrete, args)):
        return native(self, getattr(obj, name), args, kw)
    else:
        if isinstance(obj, (SInt, SReal, SBool)) and not hasattr(0.0 if isinstance(obj, SReal) else 0, name):
            raise_(AttributeError, name)
        raise Unsupported('method %s of %r' % (name, obj))
    if m is None:
        if not hasattr({PyList: [], PyDict: {}, PySet: set()}.get(type(obj), ''), name): raise_(AttributeError, name)
        raise Unsupported('%s.%s' % (type(obj).__name__, name))
    return m(self, obj, args, kw)
Interp.call_builtin = call_builtin


def native(self, f, args, kw):
    try:
        return self.wrap(f(*args, **kw))
    except Exception as e:
        raise PyRaise(ExcVal(type(e), e.args))


def list_append(self, l, a, kw): ops.list_append(l, a[0])

def list_extend(self, l, a, kw):
    it = self.drain(a[0])
    if isinstance(it, SymIter):
        o = enumerate_sym(it, None, 'extend')
        r = ops.list_concat(l, o)
        l.write('*', ('e', o.get(z3.Int('shape_probe'))))
        l.set_sym(r.n, r._get)
        return
    for x in self.pull(it, 'extend'): ops.list_append(l, x)

def list_pop(self, l, a, kw):
    i = force(a[0]) if a else -1
    v = ops.list_getitem(l, i)
    ops.list_delitem(l, i)
    return v

def list_insert(self, l, a, kw): ops.list_insert(l, force(a[0]), a[1])

def list_clear(self, l, a, kw):
    l.write('*')
    l.items = []
    l.n = None

def list_copy(self, l, a, kw): return ops.list_slice(l, None, None)

def list_reverse(self, l, a, kw):
    l.write('*')
    r = ops.list_reversed(l)
    if r.symbolic: l.set_sym(r.n, r._get)
    else: l.items = r.items

def find_index(self, l, k):
    """Index term of the first element equal to k; ValueError if none."""
    cc = core.cx()
    if not l.symbolic:
        for i, x in enumerate(l.items):
            if cc.branch(ops.eq(x, k)): return i
        raise_(ValueError, 'not in list')
    if not cc.branch(ops.list_contains(l, k)): raise_(ValueError, 'not in list')
    n, g = l.n, l._get
    i = cc.fresh('index', I)
    cc.register_index(i)
    cc.assume(z3.And(0 <= i, i < n, ops.as_term_bool(ops.eq(g(i), k))))
    cc.add_fact(IDX, lambda j: z3.Implies(z3.And(0 <= j, j < i), z3.Not(ops.as_term_bool(ops.eq(g(j), k)))), 'first')
    return SInt(i)

def list_index(self, l, a, kw): return find_index(self, l, force(a[0]))

def list_remove(self, l, a, kw):
    i = find_index(self, l, force(a[0]))
    ops.list_delitem(l, i)

def list_sort(self, l, a, kw):
    l.write('*')
    rev = force(kw.get('reverse', False))
    if not isinstance(rev, bool): raise Unsupported('reverse')
    key = kw.get('key')
    sort_list(self, l, key, rev)

def list_count(self, l, a, kw):
    if l.symbolic: raise Unsupported('list.count')
    r = 0
    for x in l.items: r = ops.binop('Add', r, 1 if core.cx().branch(ops.eq(x, force(a[0]))) else 0)
    return r

def list___len__(self, l, a, kw): return ops.length(l)
def list___contains__(self, l, a, kw): return mkbool(ops.contains(l, a[0]))
def list___iter__(self, l, a, kw): return self.b_iter([l], {})


def dict_get(self, d, a, kw):
    k = force(a[0])
    default = a[1] if len(a) > 1 else kw.get('default')
    if d.symbolic and default is None or d.symbolic and is_scalar(default):
        t = keyterm(k)
        if d.sort is not None and t.sort() != d.sort: return default
        core.cx().register(t)
        dom = d.dom(t)
        if core.cx().branch(dom): return ops.bind_inner(d, k, d.val(t))
        return default
    ok, v = ops.dict_lookup(d, k)
    return ops.bind_inner(d, k, v) if ok else default

def is_scalar(v): return isinstance(v, (int, float, str, bytes, SInt, SBool, SReal, SStr, STok))

def dict_pop(self, d, a, kw):
    k = force(a[0])
    ok, v = ops.dict_lookup(d, k)
    if not ok:
        if len(a) > 1: return a[1]
        raise_(KeyError, k)
    ops.dict_del(d, k)
    return v

def dict_setdefault(self, d, a, kw):
    k = force(a[0])
    ok, v = ops.dict_lookup(d, k)
    if ok: return ops.bind_inner(d, k, v)
    v = a[1] if len(a) > 1 else None
    ops.dict_set(d, k, v)
    if isinstance(v, (PyDict, PyList)): return ops.dict_lookup(d, k)[1] if not d.symbolic else ops.bind_inner(d, k, d.val(keyterm(k)))
    return v

def dict_update(self, d, a, kw):
    if a:
        o = force(a[0])
        if isinstance(o, PyDict):
            if o.symbolic or d.symbolic:
                d.write('*')
                dd, dv, od, ov = ops.snapshot_mem(d), d.val if d.symbolic else None, ops.snapshot_mem(o), o._val
                if not d.symbolic or not o.symbolic: raise Unsupported('dict.update')
                dv = d._val
                d.set_sym(lambda t: z3.Or(dd(t), od(t)), lambda t: ite(od(t), ov(t), dv(t)), d.sort)
                return
            for k, v in o.items: ops.dict_set(d, k, v)
        else:
            for p in self.tolist(o):
                k, v = self.unpack(p, [None, None])
                ops.dict_set(d, force(k), v)
    for k, v in kw.items(): ops.dict_set(d, k, v)

def dict_clear(self, d, a, kw):
    d.write('*')
    if d.symbolic:
        d.set_sym(lambda t: z3.BoolVal(False), d._val, d.sort)
        d.size = z3.IntVal(0)
    else: d.items = []

def dict_copy(self, d, a, kw): return to_dict(self, d, {})

def dict_keys(self, d, a, kw):
    if not d.symbolic: return PyList([k for k, _ in d.items], site='keys')
    return SymIter('set', d.size, None, d._dom, sort_or(d.sort, Tok), src=d)

def dict_values(self, d, a, kw):
    if not d.symbolic: return PyList([v for _, v in d.items], site='values')
    val = d._val
    return SymIter('set', d.size, None, d._dom, sort_or(d.sort, Tok), stages=[lambda k: (True, val(keyterm(k)))], src=d)

def dict_items(self, d, a, kw):
    if not d.symbolic: return PyList([(k, v) for k, v in d.items], site='items')
    val = d._val
    return SymIter('set', d.size, None, d._dom, sort_or(d.sort, Tok), stages=[lambda k: (True, (k, val(keyterm(k))))], src=d)

def dict___len__(self, d, a, kw): return ops.length(d)
def dict___contains__(self, d, a, kw): return mkbool(ops.contains(d, a[0]))
def dict___iter__(self, d, a, kw): return self.b_iter([d], {})
def dict___getitem__(self, d, a, kw): return self.getitem(d, a[0])
def dict___setitem__(self, d, a, kw): return self.setitem(d, a[0], a[1])


def set_add(self, s, a, kw): ops.set_add(s, force(a[0]))
def set_discard(self, s, a, kw): ops.set_remove(s, force(a[0]))
def set_remove(self, s, a, kw):
    k = force(a[0])
    if not core.cx().branch(ops.contains(s, k)): raise_(KeyError, k)
    ops.set_remove(s, k)
def set_clear(self, s, a, kw):
    s.write('*')
    if s.symbolic:
        s.set_mem(lambda t: z3.BoolVal(False), s.sort)
        s.size = z3.IntVal(0)
    else: s.items = []
def set_copy(self, s, a, kw): return to_set(self, s)
def set_update(self, s, a, kw):
    for x in a:
        it = self.drain(x)
        if isinstance(it, SymIter):
            o = to_set(self, it, drained=True)
            r = ops.set_op('BitOr', s, o)
            s.write('*', ('k', mkkey(z3.Const('key_probe', r.sort))))
            s.set_mem(r._mem, r.sort)
        else:
            for y in self.pull(it, 'update'): ops.set_add(s, force(y))
def set_union(self, s, a, kw):
    r = to_set(self, s)
    set_update(self, r, a, kw)
    return r
def set_intersection(self, s, a, kw): return ops.set_op('BitAnd', s, to_set(self, a[0]))
def set_difference(self, s, a, kw): return ops.set_op('Sub', s, to_set(self, a[0]))
def set_difference_update(self, s, a, kw):
    r = ops.set_op('Sub', s, to_set(self, a[0]))
    s.write('*')
    if r.symbolic: s.set_mem(r._mem, r.sort)
    else: s.items = r.items
def set_issubset(self, s, a, kw): return subset(self, s, to_set(self, a[0]))
def set_issuperset(self, s, a, kw): return subset(self, to_set(self, a[0]), s)
def set_isdisjoint(self, s, a, kw):
    r = ops.set_op('BitAnd', s, to_set(self, a[0]))
    return mkbool(ops.not_(ops.truth(r)))
def subset(self, a, b):
    r = ops.set_op('Sub', a, b)
    return mkbool(ops.not_(ops.truth(r)))
def set___len__(self, s, a, kw): return ops.length(s)
def set___contains__(self, s, a, kw): return mkbool(ops.contains(s, a[0]))
def set___iter__(self, s, a, kw): return self.b_iter([s], {})


def str_format(self, s, a, kw):
    if not isinstance(s, str): return SText(str)
    return do_format(self, s, a, kw)

def str_startswith(self, s, a, kw, fn=None):
    p = force(a[0])
    fn = fn or z3.PrefixOf
    if isinstance(p, tuple):
        r = False
        for x in p: r = ops.or_(r, str_aff(s, force(x), fn))
        return mkbool(r)
    return mkbool(str_aff(s, p, fn))

def str_aff(s, p, fn):
    if ops.kindof(s) is not ops.kindof(p): raise_(TypeError, 'affix of another type')
    if isinstance(s, SText) or isinstance(p, SText): return core.cx().fresh('affix', B)
    return fn(ops.strterm(p), ops.strterm(s))

def str_endswith(self, s, a, kw): return str_startswith(self, s, a, kw, z3.SuffixOf)

def str_find(self, s, a, kw):
    if len(a) > 2 or isinstance(s, SText) or isinstance(a[0], SText): raise Unsupported('str.find')
    t = ops.strterm(s)
    start = z3.IntVal(0)
    if len(a) > 1:
        st = ops.intterm(force(a[1]))
        n = z3.Length(t)
        start = z3.If(st < 0, z3.If(st + n < 0, z3.IntVal(0), st + n), st)
        start = z3.simplify(start)
    return SInt(z3.IndexOf(t, ops.strterm(force(a[0])), start))

def str_index(self, s, a, kw):
    r = str_find(self, s, a, kw)
    if core.cx().branch(r.t < 0): raise_(ValueError, 'substring not found')
    return r

def str_count(self, s, a, kw):
    if len(a) != 1 or kw: raise Unsupported('str.count')
    sub = force(a[0])
    if ops.kindof(sub) is not ops.kindof(s): raise_(TypeError, 'str.count')
    if not (isinstance(sub, (str, bytes)) and len(sub) == 1): raise Unsupported('str.count of a long text')
    cc = core.cx()
    t, u = ops.strterm(s), ops.strterm(sub)
    first = z3.IndexOf(t, u, z3.IntVal(0))
    rest = z3.SubString(t, first + 1, z3.Length(t) - first - 1)
    n = cc.fresh('count', I)
    cc.assume(n >= 0)
    cc.assume(n <= z3.Length(t))
    cc.assume((n == 0) == z3.Not(z3.Contains(t, u)))
    cc.assume((n == 1) == z3.And(z3.Contains(t, u), z3.Not(z3.Contains(rest, u))))
    return SInt(n)

def str_split(self, s, a, kw):
    sep = force(a[0] if a else kw.get('sep'))
    limit = force(a[1] if len(a) > 1 else kw.get('maxsplit', -1))
    if sep is None or not isinstance(limit, int): raise Unsupported('str.split')
    if ops.kindof(sep) is not ops.kindof(s): raise_(TypeError, 'str.split')
    if is_concrete(sep) and len(sep) == 0: raise_(ValueError, 'empty separator')
    if not is_concrete(sep): raise Unsupported('str.split')
    cc = core.cx()
    u = ops.strterm(sep)
    rest = ops.strterm(s)
    out = []
    k = ops.kindof(s)
    while limit < 0 or len(out) < limit:
        if not cc.branch(z3.Contains(rest, u)): break
        if len(out) > 3: raise Unsupported('str.split into many parts')
        i = z3.IndexOf(rest, u, z3.IntVal(0))
        out.append(SStr(z3.SubString(rest, z3.IntVal(0), i), k))
        rest = z3.SubString(rest, i + len(sep), z3.Length(rest) - i - len(sep))
    out.append(SStr(rest, k))
    return PyList(out, site='split')

def str_replace(self, s, a, kw):
    if isinstance(s, SText) or any(isinstance(force(x), SText) for x in a[:2]): return SText(ops.kindof(s))
    if len(a) == 3 and force(a[2]) == 1:
        if ops.kindof(s) is not ops.kindof(force(a[0])): raise_(TypeError, 'replace')
        return SStr(z3.Replace(ops.strterm(s), ops.strterm(force(a[0])), ops.strterm(force(a[1]))), ops.kindof(s))
    raise Unsupported('str.replace')

def str_join(self, s, a, kw):
    l = to_pylist(self, a[0])
    if l.symbolic: 
        h = core.cx().ghost.get('join')
        if h is not None:
            r = h(self, s, l)
            if r is not None: return r
        raise Unsupported('join of a symbolic list')
    items = [force(x) for x in l.items]
    if any(isinstance(x, SText) for x in items): return SText(ops.kindof(s))
    out = []
    for i, x in enumerate(items):
        if ops.kindof(x) is not ops.kindof(s): raise_(TypeError, 'sequence item')
        if i: out.append(s)
        out.append(x)
    if not out: return '' if ops.kindof(s) is str else b''
    if all(map(is_concrete, out)): return ('' if ops.kindof(s) is str else b'').join(out)
    ts = [ops.strterm(x) for x in out]
    return SStr(ts[0] if len(ts) == 1 else z3.Concat(*ts), ops.kindof(s))

def codec_of(a, kw):
    import codecs
    name = force(a[0] if a else kw.get('encoding', 'utf-8'))
    errors = force(a[1] if len(a) > 1 else kw.get('errors', 'strict'))
    if not isinstance(name, str): raise Unsupported('codec %r' % (name,))
    try: return codecs.lookup(name).name, errors
    except LookupError: raise_(LookupError, name)

def chars_below(n):
    return z3.Star(z3.Range(z3.StringVal('\\u{0}'), z3.StringVal('\\u{%x}' % (n - 1))))

def str_encode(self, s, a, kw):
    if ops.kindof(s) is not str: raise_(AttributeError, 'encode')
    if isinstance(s, SText): return SText(bytes)
    codec, errors = codec_of(a, kw)
    n = {'iso8859-1': 256, 'ascii': 128}.get(codec)
    if n is None or errors != 'strict': raise Unsupported('encode to %s' % codec)
    t = ops.strterm(s)
    if not core.cx().branch(z3.InRe(t, chars_below(n))): raise_(UnicodeEncodeError, codec)
    return SStr(t, bytes)

def str_decode(self, s, a, kw):
    if ops.kindof(s) is not bytes: raise_(AttributeError, 'decode')
    if isinstance(s, SText): return SText(str)
    codec, errors = codec_of(a, kw)
    n = {'iso8859-1': 256, 'ascii': 128}.get(codec)
    if n is None or errors != 'strict': raise Unsupported('decode from %s' % codec)
    t = ops.strterm(s)
    if n < 256 and not core.cx().branch(z3.InRe(t, chars_below(n))): raise_(UnicodeDecodeError, codec)
    return SStr(t, str)

def str_partition(self, s, a, kw):
    sep = force(a[0])
    if isinstance(s, SText): return (SText(s.kind), SText(s.kind), SText(s.kind))
    t, p = ops.strterm(s), ops.strterm(sep)
    k = ops.kindof(s)
    i = z3.IndexOf(t, p, z3.IntVal(0))
    if core.cx().branch(i >= 0):
        return (SStr(z3.SubString(t, 0, i), k), sep, SStr(z3.SubString(t, i + z3.Length(p), z3.Length(t)), k))
    e = k()
    return (s, e, e)

def str___len__(self, s, a, kw): return ops.length(s)
def str___contains__(self, s, a, kw): return mkbool(ops.contains(s, a[0]))



def text_method(name):
    same = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'translate', 'center',
            'ljust', 'rjust', 'zfill', 'expandtabs'}
    if name in same:
        return lambda self, s, a, kw: SText(s.kind)
    if name == 'encode': return lambda self, s, a, kw: SText(bytes)
    if name == 'decode': return lambda self, s, a, kw: SText(str)
    if name in ('isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isalnum', 'istitle'):
        return lambda self, s, a, kw: SBool(core.cx().fresh(name, B))
    return None


# --------------------------------------------------------------------------
# built-in functions

def b(name):
    def deco(f):
        setattr(Interp, 'b_' + name, f)
        return f
    return deco


@b('list')
def b_list(self, a, kw): return to_pylist(self, a[0], 'list') if a else PyList([], site='list()')

@b('tuple')
def b_tuple(self, a, kw):
    if not a: return ()
    v = force(a[0])
    if isinstance(v, tuple): return v
    l = to_pylist(self, v, 'tuple')
    if l.symbolic: return l
    return tuple(l.items)

@b('set')
def b_set(self, a, kw): return to_set(self, a[0], 'set') if a else PySet([], site='set()')

@b('frozenset')
def b_frozenset(self, a, kw): return b_set(self, a, kw)

@b('dict')
def b_dict(self, a, kw): return to_dict(self, a[0] if a else None, kw, 'dict')

@b('int')
def b_int(self, a, kw):
    v = force(a[0]) if a else 0
    if is_concrete(v) and all(map(is_concrete, a)): return native(self, int, a, kw)
    if isinstance(v, SInt): return v
    if isinstance(v, SBool): return SInt(ops.intterm(v))
    if isinstance(v, SReal):
        return mkint(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    h = core.cx().ghost.get('int')
    if h is not None:
        r = h(self, v, a, kw)
        if r is not None: return r
    raise Unsupported('int()')

@b('float')
def b_float(self, a, kw):
    v = force(a[0]) if a else 0.0
    if is_concrete(v): return native(self, float, a, kw)
    if isinstance(v, SReal): return v
    if isinstance(v, (SInt, SBool)): return SReal(ops.toreal(v))
    raise Unsupported('float()')

@b('bool')
def b_bool(self, a, kw):
    return mkbool(self.truth_term(a[0])) if a else False

@b('str')
def b_str(self, a, kw):
    if not a: return ''
    v = force(a[0])
    if is_concrete(v) and all(map(is_concrete, a)) and not isinstance(v, V): return native(self, str, a, kw)
    if isinstance(v, (SStr, SText)) and v.kind is str and len(a) == 1: return v
    if isinstance(v, SInt):
        h = core.cx().ghost.get('format')
        return (h(self, v, '', '') if h is not None else None) or SStr(ops.int_to_str(v.t), str)
    if isinstance(v, Obj):
        m = self.find_method(v.cls, '__str__')
        if m is not None: return self.apply(self.bind(m, v), [], {})
        return SText(str)
    if isinstance(v, Ext) and hasattr(v, 'm___str__'): return v.m___str__(self, [], {})
    return SText(str)

@b('bytes')
def b_bytes(self, a, kw):
    if all(map(is_concrete, a)): return native(self, bytes, a, kw)
    h = core.cx().ghost.get('tobytes')
    if h is not None:
        r = h(self, a, kw)
        if r is not None: return r
    return SText(bytes)

@b('object')
def b_object(self, a, kw): return Obj(object, 'object')

@b('type')
def b_type(self, a, kw):
    v = force(a[0])
    if isinstance(v, (Obj, ExcVal)): return v.cls
    t = pytype(v)
    if t is None: raise Unsupported('type()')
    return t

def pytype(v):
    if isinstance(v, Obj): return v.cls
    if isinstance(v, SInt): return int
    if isinstance(v, SBool): return bool
    if isinstance(v, SReal): return float
    if isinstance(v, (SStr, SText)): return v.kind
    if isinstance(v, PyList): return list
    if isinstance(v, PyDict): return dict
    if isinstance(v, PySet): return set
    if isinstance(v, ExcVal): return v.cls
    if isinstance(v, Ext): return v.pytype
    if isinstance(v, (Closure, Bound)): return types.FunctionType
    if isinstance(v, GenObj): return types.GeneratorType
    if isinstance(v, V): return None
    return type(v)

@b('range')
def b_range(self, a, kw):
    a = [force(x) for x in a]
    if all(map(is_concrete, a)): return native(self, range, a, kw)
    for x in a:
        if not ops.isint(x): raise_(TypeError, 'range()')
    lo, hi = (z3.IntVal(0), ops.intterm(a[0])) if len(a) == 1 else (ops.intterm(a[0]), ops.intterm(a[1]))
    step = force(a[2]) if len(a) > 2 else 1
    if step == 1: n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    elif step == -1: n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
    elif isinstance(step, int) and step > 1: n = z3.If(hi > lo, (hi - lo + step - 1) / step, z3.IntVal(0))
    else: raise Unsupported('range step')
    it = SymIter('seq', z3.simplify(n), lambda k: mkint(lo + k * step), src='range')
    it.range = (lo, hi, step)
    return it

@b('enumerate')
def b_enumerate(self, a, kw):
    start = force(a[1]) if len(a) > 1 else force(kw.get('start', 0))
    it = self.iter_(a[0])
    if isinstance(it, SymIter):
        if it.kind != 'seq' or it.stages:
            it = self.iter_(to_pylist(self, it))
        if isinstance(it, SymIter):
            e = it.elem
            return SymIter('seq', it.n, lambda k: (ops.binop('Add', mkint(k), start), e(k)), src=it.src).like(it)
    def gen():
        i = start
        for x in self.pull(it, 'enumerate'):
            yield (i, x)
            i = ops.binop('Add', i, 1)
    return GenObj(gen())

@b('zip')
def b_zip(self, a, kw):
    its = [self.iter_(x) for x in a]
    if any(isinstance(i, SymIter) for i in its):
        cells = [x for i in its if isinstance(i, SymIter) for x in i.once]
        if len(set(map(id, cells))) != len(cells): raise Unsupported('zip of one iterator with itself')
        seqs = []
        for i in its:
            if isinstance(i, SymIter) and i.drain(): i = PyList([], site='used')
            l = to_pylist(self, i) if not isinstance(i, SymIter) else enumerate_sym(i)
            seqs.append(l)
        n = seqs[0].length()
        for l in seqs[1:]:
            m = l.length()
            n = z3.If(m < n, m, n)
        gets = [ops.snapshot_list(l) for l in seqs]
        return SymIter('seq', z3.simplify(n), lambda k: tuple(g(k) for g in gets)).one_shot()
    def gen():
        gs = [self.pull(i, 'zip') for i in its]
        while True:
            out = []
            for g in gs:
                try: out.append(next(g))
                except StopIteration: return
            yield tuple(out)
    return GenObj(gen())

@b('reversed')
def b_reversed(self, a, kw):
    v = force(a[0])
    if isinstance(v, SymIter): v = to_pylist(self, v)
    if isinstance(v, PyList): return self.iter_(ops.list_reversed(v))
    if isinstance(v, (tuple, str, bytes, range)): return tuple(reversed(v))
    raise Unsupported('reversed()')

@b('map')
def b_map(self, a, kw):
    if len(a) != 2:
        z = b_zip(self, a[1:], {})
        f = a[0]
        if isinstance(z, SymIter):
            return z.derive(lambda v: (True, self.apply(f, list(v), {})))
        return GenObj(self.apply(f, list(v), {}) for v in self.pull(z, 'map'))
    f = a[0]
    it = self.iter_(a[1])
    if isinstance(it, SymIter):
        return it.derive(lambda v: (True, self.apply(f, [v], {})))
    return GenObj(self.apply(f, [v], {}) for v in self.pull(it, 'map'))

@b('filter')
def b_filter(self, a, kw):
    f = a[0]
    it = self.iter_(a[1])
    def keep(v): return self.truth(v if f is None else self.apply(f, [v], {}))
    if isinstance(it, SymIter):
        return it.derive(lambda v: (keep(v), v))
    return GenObj(v for v in self.pull(it, 'filter') if keep(v))

@b('slice')
def b_slice(self, a, kw): raise Unsupported('slice()')


FUNCS = {}

def fn(*fs):
    def deco(g):
        for f in fs: FUNCS[id(f)] = g
        return g
    return deco


@fn(len)
def f_len(self, a, kw):
    v = force(a[0])
    if isinstance(v, Obj):
        m = self.find_method(v.cls, '__len__')
        if m is None: raise_(TypeError, 'no len()')
        return self.apply(self.bind(m, v), [], {})
    if isinstance(v, Ext): return v.m___len__(self, [], {})
    if isinstance(v, SymIter) and not v.stages and v.src is not None and not isinstance(v.src, str):
        return ops.length(v.src) if not isinstance(v.src, str) else mkint(v.n)
    if isinstance(v, SymIter) and v.kind == 'seq' and not v.stages: return mkint(v.n)
    if isinstance(v, STok):
        h = core.cx().ghost.get('toklen')
        if h: return h(self, v)
    if v is None or ops.isnum(v): raise_(TypeError, 'no len()')
    r = ops.length(v)
    if r is None: raise Unsupported('len of %r' % (v,))
    return r

@fn(iter)
def f_iter(self, a, kw):
    it = self.iter_(a[0])
    if isinstance(it, SymIter): return it if isinstance(force(a[0]), SymIter) else it.one_shot()
    if isinstance(it, GenObj): return it
    return GenObj(self.pull(it, 'iter'))
Interp.b_iter = lambda self, a, kw: f_iter(self, a, kw)

@fn(next)
def f_next(self, a, kw):
    v = force(a[0])
    if isinstance(v, GenObj):
        try: return next(v.gen)
        except StopIteration:
            if len(a) > 1: return a[1]
            raise_(StopIteration)
    if isinstance(v, Obj):
        m = self.find_method(v.cls, '__next__')
        if m is not None:
            try: return self.apply(self.bind(m, v), [], {})
            except PyRaise as e:
                if e.exc.cls is StopIteration and len(a) > 1: return a[1]
                raise
    raise Unsupported('next()')
Interp.b_next = lambda self, a, kw: f_next(self, a, kw)

@fn(sorted)
def f_sorted(self, a, kw):
    key = kw.get('key')
    rev = force(kw.get('reverse', False))
    if not isinstance(rev, bool): raise Unsupported('reverse')
    it = self.drain(a[0])
    if isinstance(it, SymIter):
        l = enumerate_sym(it, order_of(self, key), 'sorted', rev)
        if l.srcinfo is None: raise Unsupported('sorted')
        check_orderable(self, l, key)
        return l
    l = to_pylist(self, it, 'sorted')
    sort_list(self, l, key, rev)
    return l

@fn(isinstance)
def f_isinstance(self, a, kw):
    v = force(a[0])
    t = force(a[1])
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, STok):
        r = False
        for k in ts:
            if k is bytes: r = ops.or_(r, isbytes(v.t))
            elif k is str: r = ops.or_(r, z3.Not(isbytes(v.t)))
            elif k is object: r = True
        return mkbool(r)
    if isinstance(v, SRef):
        return mkbool(v.t != 0) if any(issubclass(v.cls, k) for k in ts) else False
    h = core.cx().ghost.get('isinstance')
    if h is not None:
        r = h(self, v, ts)
        if r is not None: return r
    p = pytype(v)
    if p is None: raise Unsupported('isinstance of %r' % (v,))
    return issubclass(p, ts)

@fn(issubclass)
def f_issubclass(self, a, kw): return issubclass(a[0], a[1])

@fn(callable)
def f_callable(self, a, kw): return isinstance(a[0], (Closure, Bound, Builtin)) or callable(a[0])

@fn(hasattr)
def f_hasattr(self, a, kw):
    try: self.getattr_(a[0], a[1])
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError): return False
        raise
    return True

@fn(getattr)
def f_getattr(self, a, kw):
    if not isinstance(a[1], str): raise Unsupported('getattr')
    try: return self.getattr_(a[0], a[1])
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError) and len(a) > 2: return a[2]
        raise

@fn(setattr)
def f_setattr(self, a, kw):
    if not isinstance(a[1], str): raise Unsupported('setattr')
    self.setattr_(a[0], a[1], a[2])

@fn(abs)
def f_abs(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return abs(v)
    if ops.isint(v):
        t = ops.intterm(v)
        return SInt(z3.If(t >= 0, t, -t))
    t = ops.toreal(v)
    return SReal(z3.If(t >= 0, t, -t))

def minmax(self, a, kw, ismin):
    key = kw.get('key')
    if len(a) == 1:
        it = self.drain(a[0])
        if isinstance(it, SymIter):
            l = enumerate_sym(it, None, 'minmax')
            return sym_minmax(self, l, kw, ismin)
        items = list(self.pull(it, 'min'))
    else: items = list(a)
    if not items:
        if 'default' in kw: return kw['default']
        raise_(ValueError, 'empty sequence')
    r = items[0]
    kr = self.apply(key, [r], {}) if key else r
    for x in items[1:]:
        kx = self.apply(key, [x], {}) if key else x
        r0, kr0 = force(r), force(kr)
        cond = ops.lt(kx, kr0) if ismin else ops.lt(kr0, kx)
        if isinstance(cond, bool):
            if cond: r, kr = x, kx
        else:
            if key is None and ops.isnum(force(x)) and ops.isnum(r0) and ops.isint(force(x)) == ops.isint(r0):
                r = kr = ite(cond, force(x), r0)
            elif core.cx().branch(cond): r, kr = x, kx
    return r

def sym_minmax(self, l, kw, ismin):
    cc = core.cx()
    key = kw.get('key')
    if not cc.branch(l.length() > 0):
        if 'default' in kw: return kw['default']
        raise_(ValueError, 'empty sequence')
    i = cc.fresh('best', I)
    cc.assume(z3.And(i >= 0, i < l.length()))
    v = l.get(i)
    kv = apply_pure(self, key, v)
    n, g = l.length(), ops.snapshot_list(l)
    def f(j):
        w = apply_pure(self, key, g(j))
        worse = ops.lt(w, kv) if ismin else ops.lt(kv, w)
        return z3.Implies(z3.And(j >= 0, j < n), z3.Not(ops.as_term_bool(worse)))
    cc.register_index(i)
    cc.add_fact(IDX if l.srcinfo is None else 'perm:' + l.srcinfo[0].name(), f, 'minmax')
    return v

@fn(min)
def f_min(self, a, kw): return minmax(self, a, kw, True)

@fn(max)
def f_max(self, a, kw): return minmax(self, a, kw, False)

def quant(self, it, isall):
    """all()/any() over a symbolic collection."""
    cc = core.cx()
    at = stage_eval(it)
    if it.kind == 'set': base, inside = it.sort, it.mem
    else: base, inside = I, (lambda t: z3.And(t >= 0, t < it.n))
    def holds(t):
        keep, v = at(t)
        if v is None: return z3.BoolVal(not isall)
        b_ = self.truth_term(v)
        b_ = ops.as_term_bool(b_)
        return (keep, b_)
    r = cc.fresh('all' if isall else 'any', B)
    w = cc.fresh('wit', base)
    cc.register(w, IDX if base == I else None)
    def f(t):
        h = holds(t)
        if not isinstance(h, tuple): return None
        keep, b_ = h
        if isall: return z3.Implies(z3.And(r, inside(t), keep), b_)
        return z3.Implies(z3.And(inside(t), keep, b_), r)
    cc.add_fact(IDX if base == I else base, f, 'all/any')
    h = holds(w)
    if isinstance(h, tuple):
        keep, b_ = h
        if isall: cc.assume(z3.Implies(z3.Not(r), z3.And(inside(w), keep, z3.Not(b_))))
        else: cc.assume(z3.Implies(r, z3.And(inside(w), keep, b_)))
    return SBool(r)

@fn(all)
def f_all(self, a, kw):
    it = self.drain(a[0])
    if isinstance(it, SymIter): return quant(self, it, True)
    for x in self.pull(it, 'all'):
        if not self.truth(x): return False
    return True

@fn(any)
def f_any(self, a, kw):
    it = self.drain(a[0])
    if isinstance(it, SymIter): return quant(self, it, False)
    for x in self.pull(it, 'any'):
        if self.truth(x): return True
    return False

@fn(sum)
def f_sum(self, a, kw):
    it = self.drain(a[0])
    if isinstance(it, SymIter):
        h = core.cx().ghost.get('sum')
        if h is not None:
            r = h(self, it)
            if r is not None: return r
        raise Unsupported('sum of a symbolic collection')
    r = a[1] if len(a) > 1 else 0
    for x in self.pull(it, 'sum'): r = self.binop('Add', r, x)
    return r

@fn(repr, ascii)
def f_repr(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return repr(v)
    return SText(str)

@fn(round)
def f_round(self, a, kw):
    a = [force(x) for x in a]
    if all(map(is_concrete, a)): return native(self, round, a, kw)
    if len(a) == 1 and isinstance(a[0], SReal):
        cc = core.cx()
        h = cc.ghost.get('round')
        if h is not None:
            r = h(self, a[0])
            if r is not None: return r
        r = cc.fresh('round', I)
        d = z3.ToReal(r) - a[0].t
        cc.assume(z3.And(d <= z3.Q(1, 2), d >= z3.Q(-1, 2)))
        cc.assume(z3.Implies(z3.Or(d == z3.Q(1, 2), d == z3.Q(-1, 2)), r % 2 == 0))
        return SInt(r)
    if len(a) == 1 and isinstance(a[0], SInt): return a[0]
    raise Unsupported('round()')

@fn(id, hash)
def f_id(self, a, kw): raise Unsupported('id()')

@fn(print)
def f_print(self, a, kw): return None

@fn(divmod)
def f_divmod(self, a, kw):
    return (self.binop('FloorDiv', a[0], a[1]), self.binop('Mod', a[0], a[1]))

@fn(chr)
def f_chr(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return native(self, chr, [v], {})
    return SStr(z3.StrFromCode(ops.intterm(v)), str)

@fn(ord)
def f_ord(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return native(self, ord, [v], {})
    if isinstance(v, SStr): return SInt(z3.StrToCode(v.t))
    raise Unsupported('ord()')

@fn(pow)
def f_pow(self, a, kw): return self.binop('Pow', a[0], a[1])


for _n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'):
    FUNCS[id(getattr(logging, _n))] = lambda self, a, kw: None

# math: each function is uninterpreted, with the facts listed here

LN = z3.Function('ln', R, R)
EXP = z3.Function('exp', R, R)

@fn(math.exp)
def f_exp(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return native(self, math.exp, [v], {})
    cc = core.cx()
    x = ops.toreal(v)
    h = cc.ghost.get('exp')
    if h is not None: return h(self, x)
    r = EXP(x)
    cc.assume(r >= 0)
    cc.assume(z3.Implies(x <= 0, r <= 1))
    return SReal(r)

@fn(math.log)
def f_log(self, a, kw):
    a = [force(x) for x in a]
    if all(map(is_concrete, a)): return native(self, math.log, a, kw)
    if len(a) > 1: raise Unsupported('log with a base')
    cc = core.cx()
    x = ops.toreal(a[0])
    if not cc.branch(x > 0): raise_(ValueError, 'math domain error')
    h = cc.ghost.get('log')
    if h is not None: return h(self, x)
    r = LN(x)
    cc.assume(z3.Implies(x <= 1, r <= 0))
    cc.assume(z3.Implies(x >= 1, r >= 0))
    return SReal(r)

@fn(math.frexp)
def f_frexp(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return native(self, math.frexp, [v], {})
    cc = core.cx()
    x = ops.toreal(v)
    m = cc.fresh('mant', R)
    e = cc.fresh('exp', I)
    h = cc.ghost.get('frexp')
    if h is not None: return h(self, x)
    cc.assume(z3.Implies(x > 0, z3.And(m >= z3.Q(1, 2), m < 1)))
    cc.assume(z3.Implies(x == 0, z3.And(m == 0, e == 0)))
    cc.assume(z3.Implies(x < 0, z3.And(m <= -z3.Q(1, 2), m > -1)))
    cc.assume(z3.Implies(z3.And(x > 0, x < z3.Q(1, 2)), e < 0))
    return (SReal(m), SInt(e))

@fn(math.floor)
def f_floor(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return native(self, math.floor, [v], {})
    return mkint(z3.ToInt(ops.toreal(v)))

@fn(math.ceil)
def f_ceil(self, a, kw):
    v = force(a[0])
    if is_concrete(v): return native(self, math.ceil, [v], {})
    return mkint(-z3.ToInt(-ops.toreal(v)))

@fn(math.fabs)
def f_fabs(self, a, kw): return f_abs(self, a, kw)

import functools
@fn(functools.partial)
def f_partial(self, a, kw): return Partial(a[0], a[1:], kw)

@fn(itertools.chain)
def f_chain(self, a, kw):
    its = [self.iter_(x) for x in a]
    def nothing(i): return isinstance(i, (PyList, PySet)) and not i.symbolic and not i.items or isinstance(i, (str, bytes, tuple)) and len(i) == 0
    sym = [i for i in its if isinstance(i, SymIter)]
    if not sym: return GenObj(x for i in its for x in self.pull(i, 'chain'))
    if len(sym) == 1 and all(i is sym[0] or nothing(i) for i in its):
        i = sym[0]
        return SymIter(i.kind, i.n, i.elem, i.mem, i.sort, i.stages, i.src).like(i)
    if all(isinstance(i, SymIter) and i.kind == 'seq' and not i.stages and not any(hasattr(i, at) for at in ('exc', 'exc_end', 'exc_all')) or nothing(i) for i in its) and len(sym) == 2:
        x, y = sym
        if set(map(id, x.once)) & set(map(id, y.once)): raise Unsupported('chain of one iterator with itself')
        r = SymIter('seq', z3.simplify(x.n + y.n), lambda k: ite(k < x.n, x.elem(k), y.elem(z3.simplify(k - x.n))))
        r.once = x.once + y.once
        return r.one_shot()
    raise Unsupported('chain of unknown sequences')


def install(interp):
    interp.models.update(FUNCS)
