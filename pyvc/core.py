"""Symbolic values and the context of one path."""
import itertools
import os
import time
import z3

z3.set_param('smt.random_seed', 0)
z3.set_param('sat.random_seed', 0)


class PathEnd(BaseException):
    """The current path is finished (infeasible, or end of a cut iteration)."""


class Unsupported(BaseException):
    """A construct outside the verifier's reach."""


class Restart(BaseException):
    """Loop information changed; explore again."""


class PyRaise(Exception):
    """A Python exception of the interpreted program."""
    def __init__(self, exc):
        Exception.__init__(self, exc)
        self.exc = exc


Tok = z3.DeclareSort('Tok')      # an opaque hashable value: a token (str or bytes)
isbytes = z3.Function('isbytes', Tok, z3.BoolSort())

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
Str = z3.StringSort()

_cx = None


def cx():
    return _cx


def set_cx(c):
    global _cx
    _cx = c


# --------------------------------------------------------------------------
# values

class V:
    """A symbolic value."""


class SInt(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SInt(%s)' % self.t


class SBool(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SBool(%s)' % self.t


class SReal(V):
    """A float, as a real number (see Cx.rounded)."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SReal(%s)' % self.t


class SStr(V):
    """A str or bytes (kind) with known content, a z3 string."""
    __slots__ = ('t', 'kind')
    def __init__(self, t, kind=str): self.t = t; self.kind = kind
    def __repr__(self): return 'SStr(%s)' % self.t


class SText(V):
    """A str or bytes of unknown content: only its type is known."""
    __slots__ = ('kind', 'tag')
    def __init__(self, kind=str, tag=''): self.kind = kind; self.tag = tag
    def __repr__(self): return 'SText(%s)' % self.kind.__name__


class STok(V):
    """An opaque token."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'STok(%s)' % self.t


class SRef(V):
    """A reference to an object of a heap-modelled class; 0 is None."""
    __slots__ = ('cls', 't')
    def __init__(self, cls, t): self.cls = cls; self.t = t
    def __repr__(self): return 'SRef(%s,%s)' % (self.cls.__name__, self.t)


class SAlt(V):
    """One of several values, with exclusive and exhaustive guards."""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'SAlt(%s)' % (self.alts,)


class Stamped(V):
    """A mutable object: has an identity that is stable between runs."""
    def __init__(self, site):
        c = _cx
        n = c.site_count.get(site, 0)
        c.site_count[site] = n + 1
        self.oid = '%s#%d' % (site, n)
        c.objects[self.oid] = self
        c.clock += 1
        self.stamp = c.clock

    def write(self, what=None, *sample):
        _cx.on_write(self, what, sample)


class Obj(Stamped):
    """An instance of an interpreted (or modelled) class."""
    def __init__(self, cls, site='obj', **fields):
        super().__init__(site)
        self.cls = cls
        self.fields = dict(fields)
    def __repr__(self): return '<Obj %s %s>' % (self.cls.__name__, self.oid)


class ExcVal(V):
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args
    def __repr__(self): return 'ExcVal(%s)' % self.cls.__name__


class Ext(Stamped):
    """Base of modelled external objects: subclasses define m_<method>."""
    pytype = None


def keyterm(v):
    """The z3 term that represents a value used as a key, and its sort key."""
    v = force(v)
    if isinstance(v, STok): return v.t
    if isinstance(v, SStr): return v.t
    if isinstance(v, SInt): return v.t
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SRef): return v.t
    if isinstance(v, (str, bytes)):
        return _cx.tok_const(v) if _cx.str_as_tok else z3.StringVal(v if isinstance(v, str) else v.decode('latin-1'))
    if v is None and _cx.str_as_tok: return _cx.tok_const(None)
    raise Unsupported('key %r' % (v,))


def mkkey(t):
    s = t.sort()
    if s == Tok: return STok(t)
    if s == I: return SInt(t)
    if s == Str: return SStr(t)
    raise Unsupported('key sort %s' % s)


class PySet(Stamped):
    def __init__(self, items=None, mem=None, site='set', sort=None, size=None):
        super().__init__(site)
        self.items = items if mem is None else None     # list of values or None
        self._mem = mem                                  # term -> Bool
        self.sort = sort
        self.size = size
        self.frozen = False
        if items is None and mem is None:
            self.items = []

    @property
    def symbolic(self): return self.items is None

    def mem(self, t):
        if self.items is None:
            return self._mem(t)
        return z3.Or([keyterm(x) == t for x in self.items]) if self.items else z3.BoolVal(False)

    def set_mem(self, f, sort=None):
        self.items = None
        self._mem = memo1(f)
        self.size = None
        if sort is not None: self.sort = sort


class PyDict(Stamped):
    """Either concrete (list of pairs, in order) or symbolic (dom, val)."""
    def __init__(self, items=None, dom=None, val=None, site='dict', sort=None, size=None):
        super().__init__(site)
        self.items = [list(p) for p in (items or [])] if dom is None else None
        self._dom = dom
        self._val = val
        self.sort = sort
        self.size = size          # SInt term or None
        self.parent = None        # (PyDict, key term) of an inner dictionary
        self.views = []           # the lists in it that somebody refers to
        self.cls = None

    @property
    def symbolic(self): return self.items is None

    def dom(self, t):
        if self.items is None:
            return self._dom(t)
        return z3.Or([keyterm(k) == t for k, _ in self.items]) if self.items else z3.BoolVal(False)

    def val(self, t):
        if self.items is None:
            return self._val(t)
        r = None
        for k, v in self.items:
            r = v if r is None else ite(keyterm(k) == t, v, r)
        if r is None: raise Unsupported('value of an empty dict')
        return r

    def set_sym(self, dom, val, sort=None):
        self.items = None
        self._dom = memo1(dom)
        self._val = memo1(val)
        for v in self.views: v.spoil()
        self.views = []
        self.size = None
        if sort is not None: self.sort = sort


class PyList(Stamped):
    """Either concrete (items) or symbolic (n: Int term, get: Int term -> value)."""
    def __init__(self, items=None, n=None, get=None, site='list', tup=False, frozen=False):
        super().__init__(site)
        self.items = list(items or []) if n is None else None
        self.n = n
        self._get = get
        self.srcinfo = None
        self.parent = None        # (PyDict, key term) of a list in a dictionary
        self.frozen = frozen

    def write(self, what=None, *sample):
        if self.parent is not None or self.frozen: raise Unsupported('change of a list in a dictionary')
        Stamped.write(self, what, *sample)

    def written(self, *sample):
        if self.frozen: raise Unsupported('change of a list in a dictionary')
        Stamped.write(self, '*', *sample)

    def spoil(self):
        """Its content is no longer known."""
        def gone(i): raise Unsupported('another name of a list in a dictionary')
        self.items = None
        self.n = None
        self._get = gone
        self.parent = None

    @property
    def symbolic(self): return self.items is None

    def length(self):
        return z3.IntVal(len(self.items)) if self.items is not None else self.n

    def get(self, t):
        if self.items is None:
            return self._get(t)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            i = t.as_long()
            if 0 <= i < len(self.items): return self.items[i]
        r = None
        for i, v in enumerate(self.items):
            r = v if r is None else ite(t == i, v, r)
        if r is None: raise Unsupported('element of an empty list')
        return r

    def set_sym(self, n, get):
        self.items = None
        self.n = n
        self._get = memo1(get)
        self.srcinfo = None


class SymIter(V):
    """A symbolic collection that is iterated once, in some order.

    n      number of elements (Int term) or None if unknown
    elem   k -> value   for indexed collections
    mem    term -> Bool for sets (order unknown)
    """
    def __init__(self, kind, n=None, elem=None, mem=None, sort=None, stages=(), src=None):
        self.kind = kind            # 'seq' or 'set'
        self.n = n
        self.elem = elem
        self.mem = mem
        self.sort = sort
        self.stages = list(stages)  # functions value -> (keep, value), run per element
        self.src = src
        self.once = []              # the iterators it goes through

    def one_shot(self):
        """An iterator, unlike a list or a set."""
        self.once = self.once + [Once()]
        return self

    def derive(self, stage):
        """An iterator that goes through this one."""
        r = SymIter(self.kind, self.n, self.elem, self.mem, self.sort, self.stages + [stage], self.src)
        return r.like(self)

    def like(self, it):
        for at in ('exc', 'exc_end', 'exc_all'):
            if hasattr(it, at): setattr(self, at, getattr(it, at))
        self.once = list(it.once)
        return self.one_shot()

    def drain(self, state='used'):
        """It is gone through. True if there is nothing left."""
        cc = cx()
        for x in self.once:
            if any(x.stamp <= tr.clock for tr in cc.trackers): raise Unsupported('an iterator of outside is used in a loop')
            if x.state == 'part': raise Unsupported('an iterator that was partly used')
            if x.state == 'used': return True
        for x in self.once: x.state = state
        return False


class Once:
    def __init__(self):
        cc = cx()
        cc.clock += 1
        self.stamp = cc.clock
        self.state = 'new'


def memo1(f):
    """Caches f by term.  What was computed under temporary assumptions (see
    Cx.push) is forgotten with them: it may depend on them.  What was computed
    in a nested instantiation is computed again outside: fewer facts were added
    there."""
    cache = {}
    def g(t):
        k = t.get_id()
        r = cache.get(k)
        gen = _cx.gen if _cx is not None else 0
        if r is None or not (r[2] is None or r[2]['alive']) or r[3] > gen:
            mark = _cx.marks[-1] if _cx is not None and _cx.marks else None
            r = cache[k] = (f(t), t, mark, gen)
        return r[0]
    return g


# --------------------------------------------------------------------------
# merging

def is_num(v):
    return isinstance(v, (int, float, SInt, SReal, bool, SBool)) 


def term(v):
    """z3 term of a scalar value."""
    if isinstance(v, (SInt, SBool, SReal, SStr, STok, SRef)): return v.t
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float): return realval(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported('term of %r' % (v,))


def realval(x):
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('infinite or NaN constant')
    from fractions import Fraction
    f = Fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (SInt, SBool, SReal, STok)): return a.t.eq(b.t)
    if isinstance(a, SStr): return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, SRef): return a.cls is b.cls and a.t.eq(b.t)
    if isinstance(a, (tuple, list)): return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, SText): return a.kind == b.kind and a.tag == b.tag
    if isinstance(a, (int, float, str, bytes, type(None))): return a == b
    return False


def ite(c, a, b):
    """Merge two Python-level values."""
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    if isinstance(a, SBool) or isinstance(b, SBool) or (isinstance(a, bool) and isinstance(b, bool)):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return SBool(z3.If(c, term(a), term(b)))
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return SInt(z3.If(c, term(a), term(b)))
    if isinstance(a, (SReal, float)) and isinstance(b, (SReal, float)):
        return SReal(z3.If(c, term(a), term(b)))
    if isinstance(a, STok) and isinstance(b, STok):
        return STok(z3.If(c, a.t, b.t))
    if isinstance(a, SStr) and isinstance(b, SStr) and a.kind == b.kind:
        return SStr(z3.If(c, a.t, b.t), a.kind)
    if isinstance(a, str) and isinstance(b, SStr) and b.kind is str:
        return SStr(z3.If(c, z3.StringVal(a), b.t), str)
    if isinstance(b, str) and isinstance(a, SStr) and a.kind is str:
        return SStr(z3.If(c, a.t, z3.StringVal(b)), str)
    if isinstance(a, SRef) and isinstance(b, SRef) and a.cls is b.cls:
        return SRef(a.cls, z3.If(c, a.t, b.t))
    if isinstance(a, Ext) and isinstance(b, Ext) and hasattr(a, 'merge'):
        m = a.merge(c, b)
        if m is not None: return m
    if isinstance(a, SRef) and b is None: return SRef(a.cls, z3.If(c, a.t, z3.IntVal(0)))
    if isinstance(b, SRef) and a is None: return SRef(b.cls, z3.If(c, z3.IntVal(0), b.t))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not keeps_identity(a) and not keeps_identity(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        r = PyDict(dom=memo1(lambda t: z3.If(c, a.dom(t), b.dom(t))), val=memo1(lambda t: ite_dictval(c, a, b, t)),
                   site='ite', sort=sort_or(a.sort, b.sort))
        return r
    alts = []
    for g, v in ((c, a), (z3.Not(c), b)):
        if isinstance(v, SAlt):
            alts += [(z3.And(g, h), w) for h, w in v.alts]
        else:
            alts.append((g, v))
    return SAlt(alts)


def ite_dictval(c, a, b, t):
    if not a.symbolic and not a.items: return b.val(t)
    if not b.symbolic and not b.items: return a.val(t)
    return ite(c, a.val(t), b.val(t))


def force(v):
    """Resolve alternatives by branching."""
    while isinstance(v, SAlt):
        alts = v.alts
        for i, (g, w) in enumerate(alts):
            if i == len(alts) - 1:
                _cx.assume(g)
                v = w
                break
            if _cx.branch(g):
                v = w
                break
    return v


# --------------------------------------------------------------------------
# shapes: descriptions of values, to create fresh ones

def keeps_identity(v):
    """A constant tuple that is told apart from others by `is`."""
    return type(v) is tuple and len(v) > 0 and bool(_cx.ghost.get('tupleid')) and all(type(x) is int for x in v)


class Unbound:
    def __repr__(self): return 'Unbound'
UNBOUND = Unbound()


class Lost:
    """A collection in a local variable whose content the loop does not keep
    track of: it must not be used."""
    def __repr__(self): return 'Lost'
LOST = Lost()


def shape_of(v):
    if isinstance(v, SAlt):
        s = None
        for _, w in v.alts:
            s = join_shape(s, shape_of(w))
        return s
    if v is None: return ('none',)
    if v is UNBOUND: return ('unbound',)
    if v is LOST: return ('lost',)
    if isinstance(v, (bool, SBool)): return ('bool',)
    if isinstance(v, (int, SInt)): return ('int',)
    if isinstance(v, (float, SReal)): return ('real',)
    if isinstance(v, STok): return ('tok',)
    if isinstance(v, SStr): return ('str', v.kind)
    if isinstance(v, SText): return ('text', v.kind)
    if isinstance(v, (str, bytes)): return ('const', v)
    if isinstance(v, SRef): return ('ref', v.cls)
    if isinstance(v, tuple):
        if keeps_identity(v): return ('ctuple', v)
        return ('tuple', tuple(shape_of(x) for x in v))
    if isinstance(v, PySet): return ('set', v.sort)
    if isinstance(v, PyDict): return ('dict',)
    if isinstance(v, PyList):
        if v.symbolic:
            try: return ('list', shape_of(v.get(z3.Int('shape_probe'))))
            except Unsupported: return ('list', None)
        s = None
        for x in v.items: s = join_shape(s, shape_of(x))
        return ('list', s)
    if isinstance(v, Ext) and hasattr(v, 'shape'): return v.shape()
    return ('same', v)


def join1(a, b):
    """A shape that covers both without alternatives, or None."""
    if a == b: return a
    ka, kb = a[0], b[0]
    if ka == 'alt' or kb == 'alt': return None
    if {ka, kb} <= {'int', 'real'}: return ('real',)
    if ka == 'tuple' and kb == 'tuple' and len(a[1]) == len(b[1]):
        return ('tuple', tuple(join_shape(x, y) for x, y in zip(a[1], b[1])))
    if 'lost' in (ka, kb) and {ka, kb} <= {'lost', 'list', 'set', 'dict'}: return ('lost',)
    if ka == 'list' and kb == 'list': return ('list', join_shape(a[1], b[1]))
    if ka == 'none' and kb == 'ref': return b
    if kb == 'none' and ka == 'ref': return a
    def kind_of(s):
        if s[0] == 'const': return type(s[1])
        if s[0] in ('str', 'text'): return s[1]
    if kind_of(a) is not None and kind_of(a) is kind_of(b):
        if 'text' in (ka, kb): return ('text', kind_of(a))
        return ('str', kind_of(a))
    if ka == 'made': return a[1].join(a, b)
    if kb == 'made': return b[1].join(b, a)
    if {ka, kb} == {'ctuple'} and len(a[1]) == len(b[1]): return ('tuple', tuple(shape_of(x) for x in a[1]))
    if kind_of(a) and kb == 'tok': return b
    if kind_of(b) and ka == 'tok': return a
    return None


def join_shape(a, b):
    if a is None: return b
    if b is None: return a
    j = join1(a, b)
    if j is not None: return j
    out = list(a[1] if a[0] == 'alt' else (a,))
    for s in (b[1] if b[0] == 'alt' else (b,)):
        for i, o in enumerate(out):
            j = join1(o, s)
            if j is not None:
                out[i] = j
                break
        else:
            out.append(s)
    out.sort(key=lambda s: s[0] != 'unbound')
    return out[0] if len(out) == 1 else ('alt', tuple(out))


def fresh_shape(shape, name, args=(), local=False):
    """A fresh value of the shape, a function of the terms `args`."""
    c = _cx
    k = shape[0]
    def f(sort, suffix=''):
        if not args: return c.fresh(name + suffix, sort)
        return c.fresh_fun(name + suffix, [a.sort() for a in args], sort)(*args)
    if k == 'none': return None
    if k == 'int': return SInt(f(I))
    if k == 'bool': return SBool(f(B))
    if k == 'real': return SReal(f(R))
    if k == 'tok': return STok(f(Tok))
    if k == 'str': return SStr(f(Str), shape[1])
    if k == 'text': return SText(shape[1])
    if k == 'const': return shape[1]
    if k == 'ref': return SRef(shape[1], f(I))
    if k == 'tuple': return tuple(fresh_shape(s, '%s.%d' % (name, i), args) for i, s in enumerate(shape[1]))
    if k in ('same', 'ctuple'): return shape[1]
    if k == 'made': return shape[1].make(shape, f)
    if k == 'alt':
        sel = f(I, '.sel')
        n = len(shape[1])
        alts = []
        for i, s in enumerate(shape[1]):
            g = sel == i if i < n - 1 else z3.And([sel != j for j in range(n - 1)])
            alts.append((g, fresh_shape(s, '%s.alt%d' % (name, i), args, local)))
        return SAlt(alts)
    if k == 'unbound': return UNBOUND
    if k in ('lost', 'list', 'set', 'dict') and local: return LOST
    raise Unsupported('cannot generalise a value of shape %s' % (shape,))


class FunMaker:
    """Creates one family of fresh functions for a shape, to be applied to
    varying key terms (the n-th use of a name gives the same function)."""
    def __init__(self, shape, name, sorts):
        self.shape = shape
        self.name = name
        self.sorts = sorts
        self.funs = {}
        self.subs = {}

    def __call__(self, *args):
        return self.build(self.shape, self.name, args)

    def f(self, name, sort, args):
        key = name
        if key not in self.funs:
            self.funs[key] = _cx.fresh_fun(name, self.sorts, sort)
        return self.funs[key](*args)

    def build(self, shape, name, args):
        k = shape[0]
        if k == 'int': return SInt(self.f(name, I, args))
        if k == 'bool': return SBool(self.f(name, B, args))
        if k == 'real': return SReal(self.f(name, R, args))
        if k == 'tok': return STok(self.f(name, Tok, args))
        if k == 'str': return SStr(self.f(name, Str, args), shape[1])
        if k == 'ref': return SRef(shape[1], self.f(name, I, args))
        if k == 'tuple':
            return tuple(self.build(s, '%s.%d' % (name, i), args) for i, s in enumerate(shape[1]))
        if k == 'alt':
            sel = self.f(name + '.sel', I, args)
            n = len(shape[1])
            return SAlt([(sel == i if i < n - 1 else z3.And([sel != j for j in range(n - 1)]),
                          self.build(s, '%s.alt%d' % (name, i), args)) for i, s in enumerate(shape[1])])
        if k in ('none', 'const', 'same', 'text', 'ctuple'):
            return fresh_shape(shape, name)
        if k == 'made': return shape[1].make(shape, lambda sort, suffix='': self.f(name + suffix, sort, args))
        if k == 'list':
            n = self.f(name + '.len', I, args)
            _cx.assume(n >= 0)
            l = PyList(n=n, get=None, site='inner', frozen=True)
            if shape[1] is None:
                _cx.assume(n == 0)
                def none(i): raise Unsupported('element of an empty list')
                l._get = none
            else:
                sub = self.subs.setdefault(name, FunMaker(shape[1], name + '.elem', list(self.sorts) + [I]))
                l._get = memo1(lambda i: sub(*(tuple(args) + (i,))))
            return l
        raise Unsupported('function of shape %s' % (shape,))


# --------------------------------------------------------------------------
# context of a path

class Fact:
    __slots__ = ('keys', 'fn', 'name', 'done')
    def __init__(self, keys, fn, name):
        self.keys = keys
        self.fn = fn
        self.name = name


#: The universe of positions in sequences (integers have one of their own).
IDX = 'idx'

_skeys = {}


def skey(sort):
    r = _skeys.get(sort.get_id())
    if r is None:
        r = _skeys[sort.get_id()] = (str(sort), sort)
    return r[0]


SLOW = float(os.environ.get('PYVC_SLOW') or 0)


class Cx:
    feas_ms = 3000

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = list(prefix)
        self.taken = []
        self.solver = z3.Solver()
        self.log = []            # assumptions, in order (formula)
        self.logh = [0]          # a hash of each prefix of it
        self.loginst = []        # which of them are instances of facts
        self.nwrites = 0
        self.facts = []
        self.universe = {}       # key -> list of terms
        self.unids = {}
        self.counter = {}
        self.site_count = {}
        self.clock = 0
        self.trackers = []
        self.noforks = 0
        self.subs = []           # stack of sub-explorations (merge_eval)
        self.marks = []
        self.heap = {}           # (cls, field) -> closure Int term -> value
        self.next_ref = None
        self.tokconsts = {}
        self.str_as_tok = True
        self.rounded = False
        self.callstack = []
        self.loop_seq = {}
        self.events = []         # ghost log of external effects
        self.objects = {}
        self.gen = 0
        self.maxgen = 1
        self.fixed = []          # more constants that rounding keeps
        self.ghost = {}

    # names
    def fresh(self, name, sort):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return z3.Const('%s!%d' % (name, n), sort)

    def fresh_fun(self, name, sorts, sort):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return z3.Function('%s!%d' % (name, n), *(list(sorts) + [sort]))

    def tok_const(self, v):
        r = self.tokconsts.get((type(v), v))
        if r is None:
            r = z3.Const('tok:%r' % (v,), Tok)
            self.tokconsts[(type(v), v)] = r
            self._base(isbytes(r) == z3.BoolVal(isinstance(v, bytes)))
            for (_, w), o in list(self.tokconsts.items()):
                if o is not r: self._base(o != r)
            self.register(r)
        return r

    def _base(self, f):
        # a fact true everywhere: survives pops
        self.assume(f)
        for m in self.marks:
            m['keep'].append(f)

    # assumptions
    def assume(self, f):
        if z3.is_true(f): return
        if isinstance(f, bool):
            if f: return
            f = z3.BoolVal(False)
        self.log.append(f)
        self.logh.append(hash((self.logh[-1], f.get_id())))
        self.loginst.append(self.gen > 0)
        self.solver.add(f)

    def add_fact(self, keys, fn, name=''):
        """Assume fn(*terms) for all terms of the given sort keys."""
        if not isinstance(keys, (tuple, list)): keys = (keys,)
        keys = tuple(skey(k) if not isinstance(k, str) else k for k in keys)
        fact = Fact(keys, fn, name)
        self.facts.append(fact)
        spaces = [list(self.universe.get(k, ())) for k in keys]
        for combo in itertools.product(*spaces):
            self._inst(fact, combo)

    def _inst(self, fact, combo):
        self.gen += 1
        try:
            f = fact.fn(*combo)
            if f is None or f is True: return
            if isinstance(f, SBool): f = f.t
            self.assume(f)
        finally: self.gen -= 1

    def register(self, t, key=None):
        """Make t available for the instantiation of facts."""
        if self.gen > self.maxgen: return
        key = key or skey(t.sort())
        ids = self.unids.setdefault(key, set())
        if t.get_id() in ids: return
        ids.add(t.get_id())
        lst = self.universe.setdefault(key, [])
        lst.append(t)
        for fact in list(self.facts):
            if key not in fact.keys: continue
            if len(fact.keys) == 1:
                self._inst(fact, (t,))
                continue
            pos = [i for i, k in enumerate(fact.keys) if k == key]
            seen = set()
            for p in pos:
                spaces = [[t] if i == p else list(self.universe.get(k, ())) for i, k in enumerate(fact.keys)]
                for combo in itertools.product(*spaces):
                    ck = tuple(x.get_id() for x in combo)
                    if ck in seen: continue
                    seen.add(ck)
                    self._inst(fact, combo)

    def register_index(self, t):
        """A position in a sequence."""
        self.register(t)
        self.register(t, IDX)

    def push(self):
        self.solver.push()
        self.marks.append(dict(alive=True, log=len(self.log), facts=len(self.facts), keep=[],
                               uni={k: len(v) for k, v in self.universe.items()}))

    def pop(self):
        m = self.marks.pop()
        m['alive'] = False
        self.solver.pop()
        # instances of facts come again when the terms are registered again
        added = [f for f, i in zip(self.log[m['log']:], self.loginst[m['log']:]) if not i]
        newfacts = self.facts[m['facts']:]
        newterms = []
        for k, v in self.universe.items():
            n = m['uni'].get(k, 0)
            for t in v[n:]:
                self.unids[k].discard(t.get_id())
                newterms.append((k, t))
            del v[n:]
        del self.log[m['log']:]
        del self.logh[m['log'] + 1:]
        del self.loginst[m['log']:]
        del self.facts[m['facts']:]
        for f in m['keep']:
            self.assume(f)
        return added, newfacts, newterms

    # solving
    def check(self, *extra, ms=None):
        # the same question as before a restart: formulas are shared, so that
        # the same formulas have the same ids while the cache holds them
        key = (self.logh[-1], len(self.log), ms, tuple(e.get_id() for e in extra))
        old = self.engine.answers.get(key)
        if old is not None and all(a.get_id() == b.get_id() for a, b in zip(old[0], self.log)): return old[2]
        self.solver.set('timeout', ms or self.engine.feas_ms or self.feas_ms)
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.engine.stat_solver(dt)
        if dt > 0.1 and (r == z3.unsat or ms is None): self.engine.answers[key] = (list(self.log), list(extra), r)
        if SLOW and dt > SLOW:
            import traceback, sys
            print('slow check %.1f %s' % (dt, r), [str(e)[:200] for e in extra], file=sys.stderr)
            print(''.join(traceback.format_stack(limit=9)[:-1][:7]), file=sys.stderr)
        return r

    def feasible(self, c):
        return self.check(c) != z3.unsat

    def branch(self, cond):
        """Take a side of cond; returns a Python bool."""
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.subs:
            d = self.subs[-1].decide(self, cond)
        else:
            d = self.decide(cond)
        self.assume(cond if d else z3.Not(cond))
        return d

    def decide(self, cond):
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.noforks: raise Unsupported('branch in a pure context')
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.engine.schedule(self.taken + [False])
                d = True
            elif t: d = True
            else:
                d = False
                # both may be infeasible: the path is dead, noticed later
        self.taken.append(d)
        return d

    def choose(self, n, order=None):
        """Nondeterministic choice; all alternatives are explored."""
        if self.subs: raise Unsupported('nondeterministic choice in a pure context')
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for k in reversed(range(1, n)):
                self.engine.schedule(self.taken + [k])
            d = 0
        self.taken.append(d)
        return d

    @property
    def replaying(self):
        return len(self.taken) < len(self.prefix) and not self.subs

    def dead(self):
        return self.check() == z3.unsat

    # writes
    def on_write(self, obj, what, sample):
        self.nwrites += 1
        # a proof about one call knows it as it is at the start only
        if getattr(obj, 'outer', False): raise Unsupported('change of an object of a module, a class or a default argument')
        h = self.ghost.get('onwrite')
        if h is not None: h(obj, what)
        for tr in self.trackers:
            tr.record(obj, what, sample)


class SubExploration:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.conds = []
        self.pending = []

    def decide(self, c, cond):
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = c.feasible(cond)
            f = c.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.pending.append(self.taken + [False])
                d = True
            else:
                d = bool(t)
        self.taken.append(d)
        self.conds.append(cond if d else z3.Not(cond))
        return d


class PureTracker:
    """Forbids writes to objects that existed before."""
    def __init__(self, clock):
        self.clock = clock

    def record(self, obj, what, sample):
        if obj.stamp <= self.clock:
            raise Unsupported('write to %s in a pure context' % getattr(obj, 'oid', obj))

    def record_shape(self, obj, what, shape):
        self.record(obj, what, ())


def merge_eval(thunk, raises=False):
    """Evaluate thunk on all sub-paths and merge the results into one value."""
    c = _cx
    work = [[]]
    results = []
    while work:
        prefix = work.pop()
        sub = SubExploration(prefix)
        c.push()
        c.subs.append(sub)
        c.trackers.append(PureTracker(c.clock))
        ok = False
        try:
            try:
                v = thunk()
                ok = True
            except PathEnd:
                pass
            except PyRaise as e:
                if raises == 'drop':
                    pass
                elif c.check() != z3.unsat:
                    if not raises:
                        raise Unsupported('exception %s in a pure context' % e.exc.cls.__name__)
                    v = e
                    ok = True
        finally:
            c.trackers.pop()
            c.subs.pop()
            added, newfacts, newterms = c.pop()
        work.extend(sub.pending)
        cond = z3.And(sub.conds) if sub.conds else z3.BoolVal(True)
        condids = {x.get_id() for x in sub.conds}
        if ok:
            results.append((cond, v))
            for f in added:
                if f.get_id() in condids: continue
                c.assume(f if not sub.conds else z3.Implies(cond, f))
            for fact in newfacts:
                if sub.conds:
                    fn0 = fact.fn
                    def fn(*ts, fn0=fn0, cond=cond):
                        r = fn0(*ts)
                        return None if r is None else z3.Implies(cond, r)
                    c.add_fact(fact.keys, fn, fact.name)
                else:
                    c.add_fact(fact.keys, fact.fn, fact.name)
            for k, t in newterms:
                c.register(t, k)
    if not results:
        raise PathEnd()
    v = results[-1][1]
    for cond, w in reversed(results[:-1]):
        v = ite(cond, w, v)
    return v


def sort_or(a, b):
    return a if a is not None else b


class NotPlain(Exception):
    pass


def subst_value(v, pairs):
    """The value with terms replaced; NotPlain if it is not made of terms."""
    if isinstance(v, SInt): return SInt(z3.substitute(v.t, *pairs))
    if isinstance(v, SBool): return SBool(z3.substitute(v.t, *pairs))
    if isinstance(v, SReal): return SReal(z3.substitute(v.t, *pairs))
    if isinstance(v, SStr): return SStr(z3.substitute(v.t, *pairs), v.kind)
    if isinstance(v, STok): return STok(z3.substitute(v.t, *pairs))
    if isinstance(v, SRef): return SRef(v.cls, z3.substitute(v.t, *pairs))
    if isinstance(v, SAlt): return SAlt([(z3.substitute(g, *pairs), subst_value(w, pairs)) for g, w in v.alts])
    if type(v) is tuple: return tuple(subst_value(x, pairs) for x in v)
    if v is None or isinstance(v, (bool, int, float, str, bytes, type)): return v
    if isinstance(v, Ext) and hasattr(v, 'subst'): return v.subst(pairs)
    raise NotPlain()
