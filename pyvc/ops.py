"""Operators on values."""
import z3
from .core import *
from . import core

FIXED = [z3.RealVal(0), z3.RealVal(1), z3.RealVal(-1), z3.RealVal(2), z3.Q(1, 2),
         realval(1e-200)]
U53 = z3.RealVal('1/9007199254740992')          # 2**-53
TINY = z3.Q(1, 2 ** 1022)
RND = z3.Function('rnd', R, R)
truthy = z3.Function('truthy', Tok, B)
toklt = z3.Function('toklt', Tok, Tok, B)


def raise_(cls, *args):
    raise PyRaise(ExcVal(cls, args))


def c():
    return core.cx()


def is_concrete(v):
    if isinstance(v, (V, PyDict, PyList, PySet, SymIter)): return False
    if isinstance(v, tuple): return all(map(is_concrete, v))
    return True


def isint(v): return isinstance(v, (int, SInt, bool, SBool))
def isreal(v): return isinstance(v, (float, SReal))
def isnum(v): return isint(v) or isreal(v)
def isstr(v): return isinstance(v, (str, bytes, SStr, SText))


def intterm(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SInt): return v.t
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('int of %r' % (v,))


def toreal(v):
    if isinstance(v, SReal): return v.t
    if isinstance(v, float): return realval(v)
    if isinstance(v, int): return z3.RealVal(int(v))
    t = z3.simplify(z3.ToReal(intterm(v)))
    return t


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool): return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)


def mkreal(t):
    cc = c()
    if not cc.rounded:
        return SReal(t)
    t = z3.simplify(t)
    r = RND(t)               # rounding is a function of the exact result
    for k in FIXED + cc.fixed:
        cc.assume(z3.Implies(t <= k, r <= k))
        cc.assume(z3.Implies(t >= k, r >= k))
    at = z3.If(t >= 0, t, -t)
    cc.assume(z3.Implies(at >= TINY, z3.And(r - t <= U53 * at, t - r <= U53 * at)))
    cc.assume(z3.Implies(at < TINY, z3.And(r - t <= TINY, t - r <= TINY)))
    return SReal(r)


def truth(v):
    """A Python bool or a z3 Bool."""
    v = force(v)
    if isinstance(v, SBool): return v.t
    if isinstance(v, SInt): return v.t != 0
    if isinstance(v, SReal): return v.t != 0
    if isinstance(v, SStr): return z3.Length(v.t) > 0
    if isinstance(v, SRef): return v.t != 0
    if isinstance(v, STok): return truthy(v.t)
    if isinstance(v, SText):
        return text_attr(v, 'truth', B)
    if isinstance(v, PyList): return len(v.items) > 0 if not v.symbolic else v.n > 0
    if isinstance(v, (PySet, PyDict)):
        if not v.symbolic: return len(v.items) > 0
        if v.size is not None: return v.size > 0
        return nonempty(v)
    if isinstance(v, ExcVal): return True
    if isinstance(v, Obj): return None          # decided by the interpreter
    if isinstance(v, Ext):
        return v.truth() if hasattr(v, 'truth') else True
    if isinstance(v, V): return True
    return bool(v)


def text_attr(v, name, sort):
    """An unknown attribute of a text of unknown content (the same each time)."""
    cc = c()
    d = cc.ghost.setdefault('textattr', {})
    k = (id(v), name)
    if k not in d:
        d[k] = (cc.fresh('text_' + name, sort), v)
    return d[k][0]


def nonempty(v):
    cc = c()
    mem = v._mem if isinstance(v, PySet) else v._dom
    sort = sort_or(v.sort, Tok)
    b = cc.fresh('nonempty', B)
    w = cc.fresh('member', sort)
    cc.assume(z3.Implies(b, mem(w)))
    cc.register(w)
    cc.add_fact(sort, lambda t: z3.Implies(mem(t), b), 'nonempty')
    return b


def as_term_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def eq(a, b):
    """A Python bool or a z3 Bool."""
    a = force(a); b = force(b)
    if a is b and not isreal(a): return True
    if isnum(a) and isnum(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b
        if isinstance(a, SBool) and isinstance(b, SBool): return a.t == b.t
        if isint(a) and isint(b): return intterm(a) == intterm(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and (x != x or x in (float('inf'), -float('inf'))): return False
        return toreal(a) == toreal(b)
    if isinstance(a, STok) or isinstance(b, STok):
        for x in (a, b):
            if not isinstance(x, (STok, str, bytes)):
                if isinstance(x, (SStr, SText)): raise Unsupported('token == string')
                return False
        return keyterm(a) == keyterm(b)
    if isstr(a) and isstr(b):
        ka = a.kind if isinstance(a, V) else type(a)
        kb = b.kind if isinstance(b, V) else type(b)
        if ka is not kb: return False
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return a == b
        if isinstance(a, SText) or isinstance(b, SText):
            if isinstance(a, SText) and isinstance(b, SText) and a.tag and a.tag == b.tag: return True
            raise Unsupported('comparison of an unknown text')
        return strterm(a) == strterm(b)
    if isinstance(a, SRef) or isinstance(b, SRef):
        if a is None: return b.t == 0
        if b is None: return a.t == 0
        if isinstance(a, SRef) and isinstance(b, SRef) and a.cls is b.cls: return a.t == b.t
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        r = [eq(x, y) for x, y in zip(a, b)]
        if any(x is False for x in r): return False
        r = [x for x in r if x is not True]
        return z3.And(r) if r else True
    if isinstance(a, PyList) and isinstance(b, PyList) and not a.symbolic and not b.symbolic:
        return eq(tuple(a.items), tuple(b.items))
    if isinstance(a, (PyList, PySet, PyDict)) and isinstance(b, (PyList, PySet, PyDict)):
        raise Unsupported('equality of containers')
    if isinstance(a, V) or isinstance(b, V): return False
    return a == b


def strterm(v):
    if isinstance(v, SStr): return v.t
    if isinstance(v, str): return z3.StringVal(v)
    if isinstance(v, bytes): return z3.StringVal(v.decode('latin-1'))
    raise Unsupported('string term of %r' % (v,))


def kindof(v):
    return v.kind if isinstance(v, V) else type(v)


def lt(a, b, orequal=False):
    a = force(a); b = force(b)
    if isnum(a) and isnum(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a <= b if orequal else a < b
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and x in (float('inf'), -float('inf')):
                return (x < 0) != flip
        if isint(a) and isint(b): x, y = intterm(a), intterm(b)
        else: x, y = toreal(a), toreal(b)
        return x <= y if orequal else x < y
    if isinstance(a, tuple) and isinstance(b, tuple):
        r = orequal if len(a) <= len(b) else False
        if len(a) < len(b): r = True
        for x, y in reversed(list(zip(a, b))):
            l, e = lt(x, y), eq(x, y)
            r = or_(l, and_(e, r))
        return r
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        if type(a) is not type(b): raise_(TypeError, 'unorderable')
        return a <= b if orequal else a < b
    if isinstance(a, (STok, str, bytes)) and isinstance(b, (STok, str, bytes)):
        x, y = keyterm(a), keyterm(b)
        c().ghost['tokorder'] = True
        r = toklt(x, y)
        return z3.Or(r, x == y) if orequal else z3.And(r, x != y)
    if isinstance(a, SRef) and isinstance(b, SRef) or a is None or b is None:
        # records are not ordered: reaching this is a TypeError
        e = eq(a, b)
        raise Unsupported('order of records')
    if isstr(a) and isstr(b):
        if kindof(a) is not kindof(b): raise_(TypeError, 'unorderable')
        x, y = strterm(a), strterm(b)
        return x <= y if orequal else x < y
    raise Unsupported('order of %r and %r' % (a, b))


def and_(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return z3.And(a, b)


def or_(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return z3.Or(a, b)


def not_(a):
    if isinstance(a, bool): return not a
    return z3.Not(a)


def int_to_str(t):
    return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-t)))


def floordiv(x, y):
    # z3's div is floor for a positive divisor, ceiling for a negative one
    if z3.is_int_value(y) and y.as_long() > 0: return x / y
    return z3.If(y > 0, x / y, (-x) / (-y))


def binop(op, a, b):
    a = force(a); b = force(b)
    if is_concrete(a) and is_concrete(b):
        import operator as o
        f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod,
             'Pow': o.pow, 'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor, 'LShift': o.lshift,
             'RShift': o.rshift}[op]
        try:
            return f(a, b)
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
    if isnum(a) and isnum(b):
        return arith(op, a, b)
    if op == 'Add' and isstr(a) and isstr(b):
        if kindof(a) is not kindof(b): raise_(TypeError, 'concatenation of str and bytes')
        if isinstance(a, SText) or isinstance(b, SText): return SText(kindof(a))
        return SStr(z3.Concat(strterm(a), strterm(b)), kindof(a))
    if op == 'Mult' and ((isstr(a) and isint(b)) or (isint(a) and isstr(b))):
        s, n = (a, b) if isstr(a) else (b, a)
        if isinstance(s, (str, bytes)) and len(s) == 1:
            cc = c()
            r = cc.fresh('repeat', Str)
            t = intterm(n)
            cc.assume(z3.Length(r) == z3.If(t > 0, t, z3.IntVal(0)))
            cc.assume(z3.InRe(r, z3.Star(z3.Re(strterm(s)))))
            return SStr(r, kindof(s))
        raise Unsupported('repetition of a string')
    if op == 'Mult' and (isinstance(a, PyList) and isint(b) or isinstance(b, PyList) and isint(a)):
        l, n = (a, b) if isinstance(a, PyList) else (b, a)
        if not l.symbolic and isinstance(n, int): return PyList(l.items * n, site='repeated')
        if not l.symbolic and len(l.items) == 1:
            x, t = l.items[0], intterm(n)
            r = PyList(n=z3.simplify(z3.If(t > 0, t, z3.IntVal(0))), get=lambda i: x, site='repeated')
            c().ghost.setdefault('repeated', []).append(r)
            return r
        raise Unsupported('repetition of a list')
    if op == 'Mod' and isinstance(a, (str, bytes)):
        if isinstance(a, bytes) and any(isstr(force(x)) and kindof(force(x)) is str for x in (b if isinstance(b, tuple) else [b])):
            raise_(TypeError, '%b requires a bytes-like object')
        return SText(type(a))
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if op == 'Add' and isinstance(a, PyList) and isinstance(b, PyList):
        return list_concat(a, b)
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and isinstance(a, PySet) and isinstance(b, PySet):
        return set_op(op, a, b)
    if isinstance(a, STok) or isinstance(b, STok):
        raise Unsupported('operation on a token')
    raise Unsupported('%s of %r and %r' % (op, a, b))


def arith(op, a, b):
    if isinstance(a, float) and a in (float('inf'), float('-inf')) or isinstance(b, float) and b in (float('inf'), float('-inf')):
        raise Unsupported('arithmetic with infinity')
    if isint(a) and isint(b) and op != 'Div':
        x, y = intterm(a), intterm(b)
        if op == 'Add': return mkint(x + y)
        if op == 'Sub': return mkint(x - y)
        if op == 'Mult': return mkint(x * y)
        if op in ('FloorDiv', 'Mod'):
            if c().branch(y == 0): raise_(ZeroDivisionError, 'division by zero')
            h = c().ghost.get('mod')
            if h is not None and op == 'Mod' and not z3.is_int_value(z3.simplify(y)): return mkint(h(x, y))
            q = floordiv(x, y)
            return mkint(q) if op == 'FloorDiv' else mkint(x - y * q)
        if op == 'BitAnd':
            for u, v in ((x, b), (y, a)):
                if isinstance(v, int) and v >= 0 and (v & (v + 1)) == 0:
                    return mkint(u % (v + 1))
            if isinstance(a, SBool) and isinstance(b, SBool): return SBool(z3.And(a.t, b.t))
            if isinstance(b, int):
                return mkint(z3.BV2Int(z3.Int2BV(x, 64) & z3.BitVecVal(b, 64), False)) if c().ghost.get('bv') else unsupported('&')
            raise Unsupported('&')
        if op == 'BitXor' and c().ghost.get('xor'): return mkint(c().ghost['xor'](x, y))
        if op == 'BitOr' and isinstance(a, SBool) and isinstance(b, SBool): return SBool(z3.Or(a.t, b.t))
        if op == 'LShift' and isinstance(b, int) and b >= 0: return mkint(x * (2 ** b))
        if op == 'RShift' and isinstance(b, int) and b >= 0: return mkint(x / (2 ** b))
        if op == 'Pow' and isinstance(b, int) and 0 <= b < 8:
            r = z3.IntVal(1)
            for _ in range(b): r = r * x
            return mkint(r)
        raise Unsupported('int operator %s' % op)
    x, y = toreal(a), toreal(b)
    if op == 'Add': return mkreal(x + y)
    if op == 'Sub': return mkreal(x - y)
    if op == 'Mult':
        if c().rounded:
            # instances of real arithmetic that the solver does not find
            for u, v in ((x, y), (y, x)):
                c().assume(z3.Implies(z3.And(u >= 0, v >= 0, v <= 1), z3.And(x * y >= 0, x * y <= u)))
        r = mkreal(x * y)
        h = c().ghost.get('product')
        if h is not None: h(x, y, r.t)
        return r
    if op == 'Div':
        if c().branch(y == 0): raise_(ZeroDivisionError, 'division by zero')
        if c().rounded:
            for k in FIXED + c().fixed:
                if z3.is_rational_value(k):
                    c().assume(z3.Implies(y > 0, z3.And((x / y >= k) == (x >= k * y), (x / y <= k) == (x <= k * y))))
        return mkreal(x / y)
    if op == 'Pow' and isinstance(b, int) and 0 <= b < 8:
        r = SReal(z3.RealVal(1))
        for _ in range(b): r = mkreal(r.t * x)
        return r
    raise Unsupported('float operator %s' % op)


def unsupported(x):
    raise Unsupported(x)


def neg(a):
    a = force(a)
    if is_concrete(a): return -a
    if isint(a): return mkint(-intterm(a))
    if isreal(a): return SReal(-a.t)     # exact
    raise Unsupported('negation')


# -- containers

def list_concat(a, b, site='concat'):
    if not a.symbolic and not b.symbolic:
        return PyList(a.items + b.items, site=site)
    na, ga = a.length(), a.get
    nb, gb = b.length(), b.get
    A, Bq = snapshot_list(a), snapshot_list(b)
    r = PyList(n=z3.simplify(na + nb), get=None, site=site)
    r._get = memo1(lambda i: lazy_ite(i < na, lambda: A(i), lambda: Bq(i - na)))
    return r


def lazy_ite(cond, f, g):
    cond = z3.simplify(cond)
    if z3.is_true(cond): return f()
    if z3.is_false(cond): return g()
    try: a = f()
    except Unsupported: a = None; return g()
    try: b = g()
    except Unsupported: return a
    return ite(cond, a, b)


def snapshot_list(l):
    if l.symbolic:
        return l._get
    items = list(l.items)
    tmp = PyList.__new__(PyList)
    tmp.items = items
    return lambda t: PyList.get(tmp, t)


def set_op(op, a, b):
    if not a.symbolic and not b.symbolic and all(is_concrete(x) for x in a.items + b.items):
        f = {'BitOr': lambda: a.items + [x for x in b.items if x not in a.items],
             'BitAnd': lambda: [x for x in a.items if x in b.items],
             'Sub': lambda: [x for x in a.items if x not in b.items],
             'BitXor': lambda: [x for x in a.items if x not in b.items] + [x for x in b.items if x not in a.items]}
        return PySet(f[op](), site='setop')
    ma, mb = snapshot_mem(a), snapshot_mem(b)
    f = {'BitOr': lambda t: z3.Or(ma(t), mb(t)), 'BitAnd': lambda t: z3.And(ma(t), mb(t)),
         'Sub': lambda t: z3.And(ma(t), z3.Not(mb(t))), 'BitXor': lambda t: ma(t) != mb(t)}[op]
    return PySet(mem=memo1(f), site='setop', sort=sort_or(a.sort, b.sort))


def snapshot_mem(s):
    if isinstance(s, PyDict):
        if s.symbolic: return s._dom
        ks = [keyterm(k) for k, _ in s.items]
        return lambda t: z3.Or([k == t for k in ks]) if ks else z3.BoolVal(False)
    if s.symbolic: return s._mem
    ks = [keyterm(k) for k in s.items]
    return lambda t: z3.Or([k == t for k in ks]) if ks else z3.BoolVal(False)


def key_sort(k):
    return keyterm(k).sort()


def contains(cont, k):
    """A Python bool or a z3 Bool."""
    cont = force(cont)
    k = force(k)
    if isinstance(cont, (tuple, PyList)):
        if isinstance(cont, PyList) and cont.symbolic:
            return list_contains(cont, k)
        items = cont if isinstance(cont, tuple) else cont.items
        r = False
        for x in items: r = or_(r, eq(x, k))
        return r
    if isinstance(cont, PySet):
        if not cont.symbolic: return contains(tuple(cont.items), k)
        t = keyterm(k)
        if cont.sort is not None and t.sort() != cont.sort: return False
        c().register(t)
        return cont.mem(t)
    if isinstance(cont, PyDict):
        if not cont.symbolic: return contains(tuple(x for x, _ in cont.items), k)
        t = keyterm(k)
        if cont.sort is not None and t.sort() != cont.sort: return False
        c().register(t)
        return cont.dom(t)
    if isstr(cont):
        if is_concrete(cont) and is_concrete(k): return k in cont
        if isinstance(cont, SText) or isinstance(k, SText):
            raise Unsupported('substring of an unknown text')
        return z3.Contains(strterm(cont), strterm(k))
    if isinstance(cont, SymIter) and cont.mem is not None and not cont.stages:
        t = keyterm(k)
        c().register(t)
        return cont.mem(t)
    if isinstance(cont, V): raise Unsupported('in %r' % (cont,))
    if is_concrete(k): return k in cont
    if isinstance(cont, range):
        t = intterm(k)
        return z3.And(t >= cont.start, t < cont.stop, (t - cont.start) % cont.step == 0)
    if isinstance(cont, (set, frozenset, list, dict)):
        return contains(tuple(cont), k)
    raise Unsupported('in %r' % (cont,))


def list_contains(l, k):
    cc = c()
    n, g = l.n, l._get
    b = cc.fresh('inlist', B)
    w = cc.fresh('where', I)
    cc.assume(z3.Implies(b, z3.And(0 <= w, w < n, as_term_bool(eq(g(w), k)))))
    cc.register_index(w)
    def f(i):
        return z3.Implies(z3.And(0 <= i, i < n, as_term_bool(eq(g(i), k))), b)
    cc.add_fact(IDX, f, 'inlist')
    return b


def dict_get(d, k):
    """Value for a key known to be present."""
    if not d.symbolic:
        for kk, v in d.items:
            e = eq(kk, k)
            if e is True: return v
            if e is not False and c().branch(e): return v
        raise PathEnd()
    t = keyterm(k)
    c().register(t)
    v = d.val(t)
    return v


def dict_lookup(d, k):
    """(present: bool after branching, value)"""
    if not d.symbolic:
        for kk, v in d.items:
            e = eq(kk, k)
            if e is True or (e is not False and c().branch(e)): return True, v
        return False, None
    t = keyterm(k)
    if d.sort is not None and t.sort() != d.sort: return False, None
    c().register(t)
    if c().branch(d.dom(t)): return True, d.val(t)
    return False, None


def dict_set(d, k, v):
    d.write('*', ('kv', k, v))
    if not d.symbolic:
        for p in d.items:
            e = eq(p[0], k)
            if e is True:
                p[1] = v
                return
            if e is not False:
                if c().branch(e):
                    p[1] = v
                    return
        d.items.append([k, v])
        return
    t = keyterm(k)
    c().register(t)
    dom, val, size = d._dom, d._val, d.size
    present = dom(t)
    if isinstance(v, PyList):
        if v.parent is not None or v.frozen: raise Unsupported('a list in two dictionaries')
        d.set_sym(lambda x: z3.Or(x == t, dom(x)), lambda x: list_pick(z3.simplify(x == t), v, val, x))
        v.parent = (d, t)
        d.views = [v]
    else: d.set_sym(lambda x: z3.Or(x == t, dom(x)), lambda x: lazy_key_ite(x, t, v, val))
    if size is not None:
        d.size = z3.simplify(z3.If(present, size, size + 1))
    if d.sort is None: d.sort = t.sort()
    dict_parent(d)


def lazy_key_ite(x, t, v, val):
    cond = z3.simplify(x == t)
    if z3.is_true(cond): return v
    if z3.is_false(cond): return val(x)
    return ite(cond, v, val(x))


def dict_parent(d):
    """d is the value of a key in another dictionary: update that one."""
    if d.parent is not None:
        p, t = d.parent
        val = p._val
        dom = p._dom
        p.write('*', ('kv', mkkey(t), d))
        new = PyDict(dom=d._dom, val=d._val, site='inner', sort=d.sort)
        p._val = memo1(lambda x: lazy_key_ite(x, t, new, val))


def dict_del(d, k):
    """Deletes a key known to be present."""
    d.write('*')
    if not d.symbolic:
        for i, (kk, v) in enumerate(d.items):
            e = eq(kk, k)
            if e is True or (e is not False and c().branch(e)):
                del d.items[i]
                return
        raise PathEnd()
    t = keyterm(k)
    c().register(t)
    dom, val, size = d._dom, d._val, d.size
    d.set_sym(lambda x: z3.And(x != t, dom(x)), val)
    if size is not None: d.size = z3.simplify(size - 1)


def set_add(s, k):
    s.write('*', ('k', k))
    if not s.symbolic:
        e = contains(s, k)
        if e is True: return
        if e is not False and c().branch(e): return
        s.items.append(k)
        return
    t = keyterm(k)
    c().register(t)
    mem, size = s._mem, s.size
    present = mem(t)
    s.set_mem(lambda x: z3.Or(x == t, mem(x)), sort_or(s.sort, t.sort()))
    if size is not None: s.size = z3.simplify(z3.If(present, size, size + 1))


def set_remove(s, k):
    s.write('*')
    if not s.symbolic:
        for i, x in enumerate(s.items):
            e = eq(x, k)
            if e is True or (e is not False and c().branch(e)):
                del s.items[i]
                return
        return
    t = keyterm(k)
    c().register(t)
    mem, size = s._mem, s.size
    present = mem(t)
    s.set_mem(lambda x: z3.And(x != t, mem(x)), s.sort)
    if size is not None: s.size = z3.simplify(z3.If(present, size - 1, size))


def list_append(l, v):
    l.written(('e', v))
    if not l.symbolic:
        l.items.append(v)
        list_parent(l)
        return
    n, g = l.n, l._get
    l.set_sym(z3.simplify(n + 1), lambda i: lazy_append(i, n, v, g))
    list_parent(l)


def lazy_append(i, n, v, g):
    cond = z3.simplify(i == n)
    if z3.is_true(cond): return v
    try: old = g(i)
    except Unsupported:
        if z3.is_int_value(n) and n.as_long() == 0: return v      # nothing was there before
        raise
    if z3.is_false(cond): return old
    return ite(cond, v, old)


def norm_index(l, i):
    """Index term of l[i]; raises IndexError (after branching)."""
    n = l.length()
    if isinstance(i, int):
        t = z3.IntVal(i) if i >= 0 else z3.simplify(n + i)
    else:
        t = intterm(i)
        if c().branch(t < 0): t = z3.simplify(t + n)
    if not c().branch(z3.And(t >= 0, t < n)): raise_(IndexError, 'list index out of range')
    return t


def list_getitem(l, i):
    if not l.symbolic and isinstance(i, int):
        try: return l.items[i]
        except IndexError: raise_(IndexError, 'list index out of range')
    t = norm_index(l, i)
    c().register_index(t)
    return l.get(t)


def list_setitem(l, i, v):
    l.write('*', ('e', v))
    if not l.symbolic and isinstance(i, int):
        try: l.items[i] = v
        except IndexError: raise_(IndexError, 'list index out of range')
        return
    t = norm_index(l, i)
    c().register_index(t)
    c().ghost.setdefault('lastset', {})[l.oid] = t
    n, g = l.length(), snapshot_list(l)
    l.set_sym(n, lambda x: lazy_key_ite(x, t, v, g))


def slice_bounds(n, lo, hi):
    """Terms of the bounds of a slice of a sequence of length n."""
    def norm(x, default):
        if x is None: return default
        t = intterm(x)
        t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        return z3.simplify(t)
    a = norm(lo, z3.IntVal(0))
    b = norm(hi, n)
    b = z3.simplify(z3.If(b < a, a, b))
    return a, b


def list_slice(l, lo, hi, step=None, site='slice'):
    if not l.symbolic and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return PyList(l.items[lo:hi:step], site=site)
    if step is not None:
        if step == -1 and lo is None and hi is None:
            return list_reversed(l)
        raise Unsupported('slice with a step')
    n = l.length()
    a, b = slice_bounds(n, lo, hi)
    g = snapshot_list(l)
    r = PyList(n=z3.simplify(b - a), get=None, site=site)
    r._get = memo1(lambda i: g(z3.simplify(i + a)))
    r.srcinfo = shifted_src(l, lambda i: i + a, lambda j: j - a, r.n)
    c().assume(r.n >= 0)
    c().ghost.setdefault('shifts', []).append((a, r.n))
    return r


def shifted_src(l, to, back, n):
    return None


def list_delslice(l, lo, hi):
    l.write('*')
    if not l.symbolic and all(x is None or isinstance(x, int) for x in (lo, hi)):
        del l.items[lo:hi]
        return
    n = l.length()
    a, b = slice_bounds(n, lo, hi)
    g = snapshot_list(l)
    cnt = z3.simplify(b - a)
    l.set_sym(z3.simplify(n - cnt), lambda i: lazy_ite(i < a, lambda: g(i), lambda: g(z3.simplify(i + cnt))))
    # make the shifted index available for every index in use
    c().ghost.setdefault('shifts', []).append((cnt, a))
    def f(i):
        return None
    c().assume(l.n >= 0)


def list_delitem(l, i):
    if not l.symbolic and isinstance(i, int):
        l.write('*')
        try: del l.items[i]
        except IndexError: raise_(IndexError, 'list assignment index out of range')
        return
    t = norm_index(l, i)
    l.write('*')
    n, g = l.length(), snapshot_list(l)
    c().register_index(t)
    l.set_sym(z3.simplify(n - 1), lambda x: lazy_ite(x < t, lambda: g(x), lambda: g(z3.simplify(x + 1))))


def list_insert(l, i, v):
    l.write('*', ('e', v))
    if not l.symbolic and isinstance(i, int):
        l.items.insert(i, v)
        return
    if not isinstance(i, int) or i != 0: raise Unsupported('insert')
    n, g = l.length(), snapshot_list(l)
    l.set_sym(z3.simplify(n + 1), lambda x: lazy_ite(x == 0, lambda: v, lambda: g(z3.simplify(x - 1))))


def list_reversed(l, site='reversed'):
    if not l.symbolic: return PyList(l.items[::-1], site=site)
    n, g = l.n, l._get
    if not c().subs: c().ghost.setdefault('reversals', []).append(n)
    return PyList(n=n, get=memo1(lambda i: g(z3.simplify(n - 1 - i))), site=site)


def str_slice(s, lo, hi):
    if is_concrete(s) and is_concrete(lo) and is_concrete(hi): return s[lo:hi]
    if isinstance(s, SText): return SText(s.kind)
    t = strterm(s)
    a, b = slice_bounds(z3.Length(t), lo, hi)
    return SStr(z3.simplify(z3.SubString(t, a, b - a)), kindof(s))


def length(v):
    """SInt, int or None when the interpreter must call __len__."""
    v = force(v)
    if isinstance(v, (str, bytes, tuple)): return len(v)
    if isinstance(v, SStr): return mkint(z3.Length(v.t))
    if isinstance(v, SText):
        t = text_attr(v, 'len', I)
        c().assume(t >= 0)
        return SInt(t)
    if isinstance(v, PyList): return len(v.items) if not v.symbolic else mkint(v.n)
    if isinstance(v, (PySet, PyDict)):
        if not v.symbolic: return len(v.items)
        if v.size is None:
            v.size = c().fresh('size', I)
            c().assume(v.size >= 0)
        return mkint(v.size)
    if isinstance(v, V): return None
    if hasattr(v, '__len__'): return len(v)
    raise_(TypeError, 'no len()')


def subscript(v, i):
    v = force(v)
    if isinstance(v, PyDict):
        i = force(i)
        ok, r = dict_lookup(v, i)
        if not ok: raise_(KeyError, i)
        return bind_inner(v, i, r)
    i = force(i)
    if isinstance(v, PyList): return list_getitem(v, i)
    if isinstance(v, tuple):
        if isinstance(i, int):
            try: return v[i]
            except IndexError: raise_(IndexError, 'tuple index out of range')
        tmp = PyList(list(v), site='tup')
        return list_getitem(tmp, i)
    if isinstance(v, (str, bytes)) and isinstance(i, int):
        try: return v[i]
        except IndexError: raise_(IndexError, 'index out of range')
    if isinstance(v, SStr):
        t = v.t
        n = z3.Length(t)
        it = intterm(i)
        if isinstance(i, int) and i < 0: it = z3.simplify(n + i)
        if not c().branch(z3.And(it >= 0, it < n)): raise_(IndexError, 'string index out of range')
        ch = z3.SubString(t, it, 1)
        if v.kind is bytes: return SInt(z3.StrToCode(ch))
        return SStr(ch, str)
    if isinstance(v, SText):
        n, it = intterm(length(v)), intterm(i)
        if not c().branch(z3.And(it < n, it >= -n)): raise_(IndexError, 'index out of range')
        if v.kind is bytes:
            r = c().fresh('byte', I)
            c().assume(z3.And(r >= 0, r < 256))
            return SInt(r)
        return SText(str)
    if isinstance(v, V): return None
    if is_concrete(i):
        try: return v[i]
        except Exception as e: raise PyRaise(ExcVal(type(e), e.args))
    raise Unsupported('subscript of %r' % (v,))


def bind_inner(d, k, r):
    """A dictionary inside a symbolic dictionary: writes go to the outer one."""
    if isinstance(r, PyDict) and d.symbolic and r.parent is None:
        inner = PyDict(dom=snapshot_mem(r), val=(r._val if r.symbolic else (lambda t, r=r: r.val(t))), site='view', sort=r.sort)
        inner.parent = (d, keyterm(k))
        return inner
    if isinstance(r, PyList) and d.symbolic and r.parent is None: return list_view(d, keyterm(k), r)
    return r


def list_view(d, t, r):
    """A list inside a symbolic dictionary: writes go to the dictionary, and no
    other view of one of its lists may be used after them."""
    if c().subs: return r
    v = PyList(n=r.length(), get=snapshot_list(r), site='view')
    if not r.symbolic and not r.items:
        def none(i): raise Unsupported('element of an empty list')
        v._get = none
    v.parent = (d, t)
    d.views.append(v)
    return v


def list_pick(cond, new, val, x):
    if z3.is_true(cond): return new
    old = val(x)
    if z3.is_false(cond): return old
    m = PyList(n=z3.simplify(z3.If(cond, new.length(), old.length())), get=None, site='inner', frozen=True)
    m._get = memo1(lambda i: lazy_ite(cond, lambda: new.get(i), lambda: old.get(i)))
    return m


def list_parent(l):
    if l.parent is None: return
    d, t = l.parent
    new = PyList(n=l.length(), get=snapshot_list(l), site='inner', frozen=True)
    dom, val = d._dom, d._val
    d.write('*', ('kv', mkkey(t), l))
    views, d.views = d.views, []
    d._val = memo1(lambda x: list_pick(z3.simplify(x == t), new, val, x))
    for v in views:
        if v is not l: v.spoil()
    d.views = [l]
