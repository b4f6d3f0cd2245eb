"""Interpreter of the real functions of the repository, on symbolic values."""
import ast
import builtins as _b
import inspect
import sys
import types

import z3
from . import core
from .core import *
from . import ops
from .ops import raise_, is_concrete

MAXUNROLL = 4000


# --------------------------------------------------------------------------
# source

class Source:
    def __init__(self):
        self.files = {}

    def nodes(self, filename):
        m = self.files.get(filename)
        if m is None:
            with open(filename, encoding='utf-8') as f:
                text = f.read()
            tree = ast.parse(text, filename)
            m = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                    line = node.lineno
                    if isinstance(node, ast.FunctionDef) and node.decorator_list:
                        line = node.decorator_list[0].lineno
                    m.setdefault((line, getattr(node, 'name', '<lambda>')), []).append(node)
            self.files[filename] = m
        return m

    def find(self, func):
        code = func.__code__
        got = self.nodes(code.co_filename).get((code.co_firstlineno, code.co_name), [])
        if len(got) != 1:
            raise Unsupported('source of %s' % func.__qualname__)
        return got[0]


class Scope(ast.NodeVisitor):
    """Names bound in a function body."""
    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.isgen = False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
    visit_ClassDef = visit_FunctionDef
    def visit_Lambda(self, n): pass
    def visit_comp(self, n):
        for g in n.generators[:1]: self.visit(g.iter)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.names.add(n.id)
    def visit_ExceptHandler(self, n):
        if n.name: self.names.add(n.name)
        self.generic_visit(n)
    def visit_Global(self, n): self.globals.update(n.names)
    def visit_Nonlocal(self, n): self.nonlocals.update(n.names)
    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield
    def visit_Import(self, n):
        for a in n.names: self.names.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import


def scope_of(node):
    s = getattr(node, '_scope', None)
    if s is None:
        s = Scope()
        body = node.body if isinstance(node.body, list) else [node.body]
        for b in body: s.visit(b)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs: s.names.add(x.arg)
        if a.vararg: s.names.add(a.vararg.arg)
        if a.kwarg: s.names.add(a.kwarg.arg)
        node._scope = s
    return s


class Env(Stamped):
    def __init__(self, name, globs, parent=None, owner=None):
        super().__init__('env:' + name)
        self.name = name
        self.vars = {}
        self.globs = globs
        self.parent = parent
        self.owner = owner
        self.local = set()
        self.globalnames = set()
        self.nonlocals = set()
        self.selfarg = None
        self.cells = False

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                return v
            if name in e.local and name not in e.nonlocals:
                raise_(UnboundLocalError, name)
            e = e.parent
        return None

    def owner_of(self, name):
        e = self
        while e is not None:
            if name in e.vars or (name in e.local and name not in e.nonlocals): return e
            e = e.parent
        return None

    def set(self, name, v):
        if name in self.globalnames: raise Unsupported('assignment to a global')
        e = self
        if name in self.nonlocals:
            e = self.parent.owner_of(name)
            if e.cells: raise Unsupported('assignment to a variable of an enclosing function that has returned')
        e.write(name, v)
        e.vars[name] = v


class Closure(V):
    """A nested function or lambda."""
    def __init__(self, node, env, defaults, kwdefaults):
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = getattr(node, 'name', '<lambda>')


class Bound(V):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_
    def __repr__(self): return 'Bound(%s)' % getattr(self.func, '__qualname__', self.func)


class Builtin(V):
    """A method of a built-in type or of a model, bound to its object."""
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Super(V):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Partial(V):
    def __init__(self, func, args, kw):
        self.func = func
        self.args = args
        self.kw = kw


class GenObj(V):
    def __init__(self, gen, name='gen'):
        self.gen = gen
        self.name = name
        self.kind = 'gen'


class Ctx(V):
    """A context manager made by contextlib.contextmanager."""
    def __init__(self, gen):
        self.gen = gen


class Missing:
    pass
MISSING = Missing()


class Interp:
    def __init__(self, engine):
        self.engine = engine
        self.source = engine.source
        self.overrides = {}       # qualname 'module:qualname' or function -> handler
        self.models = {}          # id(native callable) -> handler
        self.classmodels = {}     # (class, method name) -> handler(self_, args, kw)
        self.heapclasses = {}     # class -> fields
        self.wrapped = {}
        self.current = None
        from . import models
        models.install(self)

    # ---------------------------------------------------------- functions

    def call(self, f, *args, **kw):
        return self.apply(f, list(args), dict(kw))

    def apply(self, f, args, kw):
        f = force(f)
        cc = core.cx()
        if isinstance(f, Bound):
            return self.apply(f.func, [f.self_] + args, kw)
        if isinstance(f, Partial):
            return self.apply(f.func, list(f.args) + args, dict(f.kw, **kw))
        if isinstance(f, Builtin):
            return self.call_builtin(f.obj, f.name, args, kw)
        if isinstance(f, Closure):
            return self.run_function(f.node, f.env.globs, args, kw, f.defaults, f.kwdefaults, f.env, f.name, f.env.owner)
        if isinstance(f, Ext):
            return f.m___call__(self, args, kw)
        if isinstance(f, Obj):
            m = self.find_method(f.cls, '__call__')
            if m is None: raise_(TypeError, 'not callable')
            return self.apply(self.bind(m, f), args, kw)
        if isinstance(f, ModelMethod):
            return f.fn(self, args[0], args[1:], kw)
        h = self.models.get(id(f))
        if h is not None:
            return h(self, args, kw)
        if isinstance(f, types.FunctionType):
            h = self.overrides.get(f.__module__ + ':' + f.__qualname__)
            if h is not None:
                self.engine.used_contract(f.__module__ + ':' + f.__qualname__)
                return h(self, args, kw)
            if hasattr(f, '__wrapped__') and f.__code__.co_filename.endswith('contextlib.py'):
                return Ctx(self.apply(f.__wrapped__, args, kw))
            if (f.__module__ or '').startswith('sbclassifier'):
                return self.run_native(f, args, kw)
            if f.__module__ and f.__module__.startswith('pyvc'):
                return f(*args, **kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, types.MethodType):
            return self.apply(f.__func__, [self.wrap(f.__self__)] + args, kw)
        if f is None or isinstance(f, V): raise_(TypeError, 'object is not callable')
        # a native callable without a model
        h = cc.ghost.get('native')
        if h is not None:
            r = h(self, f, args, kw)
            if r is not None: return r[0]
        if all(map(is_concrete, args)) and all(map(is_concrete, kw.values())) and self.native_ok(f):
            try:
                return self.wrap(f(*args, **kw))
            except Exception as e:
                raise PyRaise(ExcVal(type(e), e.args))
        raise Unsupported('call of %s' % (getattr(f, '__qualname__', f),))

    SAFE_MODULES = {'math', 're', 'builtins', 'string', 'posixpath', 'fnmatch', 'binascii', 'urllib.parse',
                    'ipaddress', 'email.utils', 'operator', '_operator', 'email.header', 'struct', '_struct'}

    def native_ok(self, f):
        mod = getattr(f, '__module__', None)
        if mod in self.SAFE_MODULES: return True
        s = getattr(f, '__self__', None)
        if isinstance(s, (str, bytes, int, float)): return True
        if type(s).__name__ in ('Pattern', 'Match'): return True
        return False

    def run_native(self, f, args, kw):
        node = self.source.find(f)
        cells = {}
        if f.__closure__:
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                try: cells[n] = cell.cell_contents
                except ValueError: pass
        owner = cells.get('__class__')
        parent = None
        others = {k: v for k, v in cells.items() if k != '__class__'}
        if others:
            parent = Env('cells', f.__globals__)
            parent.vars = {k: self.wrap(v) for k, v in others.items()}
            parent.cells = True
        self.engine.used_function(f)
        return self.run_function(node, f.__globals__, args, kw, [self.wrap(d) for d in (f.__defaults__ or ())],
                                 {k: self.wrap(v) for k, v in (f.__kwdefaults__ or {}).items()}, parent,
                                 f.__qualname__, owner)

    def bind_args(self, node, args, kw, defaults, kwdefaults, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if not a.vararg: raise_(TypeError, '%s() takes %d positional arguments' % (name, len(pos)))
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args): out[n] = v
        nd = len(defaults)
        for i, n in enumerate(pos):
            if n in out:
                if n in kw: raise_(TypeError, '%s() got multiple values for argument %r' % (name, n))
                continue
            if n in kw: out[n] = kw.pop(n)
            elif i >= len(pos) - nd: out[n] = defaults[i - (len(pos) - nd)]
            else: raise_(TypeError, '%s() missing argument %r' % (name, n))
        for x in a.kwonlyargs:
            n = x.arg
            if n in kw: out[n] = kw.pop(n)
            elif n in kwdefaults: out[n] = kwdefaults[n]
            else: raise_(TypeError, '%s() missing argument %r' % (name, n))
        if a.kwarg:
            out[a.kwarg.arg] = PyDict(list(kw.items()), site='kwargs')
        elif kw:
            raise_(TypeError, '%s() got an unexpected keyword argument %r' % (name, list(kw)[0]))
        return out

    def run_function(self, node, globs, args, kw, defaults, kwdefaults, parent, name, owner):
        cc = core.cx()
        scope = scope_of(node)
        bound = self.bind_args(node, args, kw, defaults, kwdefaults, name)
        env = Env(name, globs, parent, owner)
        env.local = scope.names - scope.globals
        env.globalnames = scope.globals
        env.nonlocals = scope.nonlocals
        env.vars.update(bound)
        pos = node.args.posonlyargs + node.args.args
        if pos: env.selfarg = pos[0].arg
        if len(cc.callstack) > 60: raise Unsupported('recursion')
        if isinstance(node, ast.Lambda):
            cc.callstack.append(name)
            try: return self.ev(node.body, env)
            finally: cc.callstack.pop()
        if scope.isgen:
            return GenObj(self.gen_body(node, env, name), name)
        cc.callstack.append(name)
        depth = len(cc.callstack)
        try:
            g = self.block(node.body, env)
            try:
                next(g)
                raise Unsupported('yield outside of a generator')
            except StopIteration as s:
                sig = s.value
        finally:
            del cc.callstack[depth - 1:]
        if sig and sig[0] == 'return': return sig[1]
        return None

    def gen_body(self, node, env, name):
        cc = core.cx()
        g = self.block(node.body, env)
        sent = None
        while True:
            saved = cc.callstack
            cc.callstack = saved + [name]
            try:
                try:
                    v = g.send(sent) if sent is not None else next(g)
                except StopIteration:
                    return
            finally:
                cc.callstack = saved
            try:
                sent = yield v
            except PyRaise as e:
                # thrown into the generator (context managers)
                saved = cc.callstack
                cc.callstack = saved + [name]
                try:
                    try:
                        v = g.throw(e)
                        raise Unsupported('yield after throw')
                    except StopIteration:
                        return
                finally:
                    cc.callstack = saved

    # ---------------------------------------------------------- wrapping

    def wrap(self, v):
        """A native value as a value of the interpreter."""
        if isinstance(v, (V, Stamped)): return v
        if isinstance(v, (list, dict, set)):
            cc = core.cx()
            w = cc.ghost.setdefault('wrapped', {})
            r = w.get(id(v))
            if r is None:
                if isinstance(v, list): r = PyList([self.wrap(x) for x in v], site='wraplist')
                elif isinstance(v, dict): r = PyDict([(self.wrap(k), self.wrap(x)) for k, x in v.items()], site='wrapdict')
                else: r = PySet([self.wrap(x) for x in sorted(v, key=repr)], site='wrapset')
                r.outer = True
                w[id(v)] = r
                w['keep%d' % id(v)] = v
            return r
        if isinstance(v, tuple) and type(v) is tuple: return tuple(self.wrap(x) for x in v)
        return v

    # ---------------------------------------------------------- classes

    def find_method(self, cls, name):
        for k in cls.__mro__:
            if (k, name) in self.classmodels: return self.classmodels[(k, name)]
            if name in k.__dict__:
                if k is object: return None
                return k.__dict__[name]
        return None

    def bind(self, m, obj):
        if isinstance(m, staticmethod): return m.__func__
        if isinstance(m, classmethod): return Bound(m.__func__, obj.cls)
        if isinstance(m, property):
            return self.apply(m.fget, [obj], {})
        if isinstance(m, types.FunctionType) or isinstance(m, ModelMethod):
            return Bound(m, obj)
        if isinstance(m, (types.BuiltinFunctionType, types.WrapperDescriptorType, types.MethodDescriptorType)):
            raise Unsupported('native method %s' % (m,))
        return self.wrap(m)

    def instantiate(self, cls, args, kw):
        h = self.classmodels.get((cls, '__new__'))
        if h is not None: return h.fn(self, cls, args, kw)
        if issubclass(cls, BaseException):
            return ExcVal(cls, tuple(args))
        b = getattr(self, 'b_' + cls.__name__, None)
        if cls.__module__ == 'builtins' and b is not None:
            return b(args, kw)
        if cls in self.heapclasses:
            return self.alloc(cls, args, kw)
        if not cls.__module__.startswith('sbclassifier'):
            if all(map(is_concrete, args)) and all(map(is_concrete, kw.values())) and cls.__module__ in self.SAFE_MODULES:
                try: return self.wrap(cls(*args, **kw))
                except Exception as e: raise PyRaise(ExcVal(type(e), e.args))
            raise Unsupported('instance of %s' % cls.__name__)
        o = Obj(cls, 'obj:' + cls.__name__)
        m = self.find_method(cls, '__init__')
        if m is not None:
            self.apply(self.bind(m, o), args, kw)
        elif args or kw:
            raise_(TypeError, '%s() takes no arguments' % cls.__name__)
        return o

    def alloc(self, cls, args, kw):
        """A new instance of a heap-modelled class."""
        cc = core.cx()
        r = SRef(cls, cc.next_ref)
        h = HEAP()
        h.write('next', SInt(cc.next_ref))
        cc.next_ref = z3.simplify(cc.next_ref + 1)
        m = self.find_method(cls, '__init__')
        if m is not None:
            self.apply(Bound(m, r), args, kw)
        return r

    # ---------------------------------------------------------- attributes

    def getattr_(self, v, name):
        v = force(v)
        if isinstance(v, Obj):
            if name in v.fields: return v.fields[name]
            if name == '__class__': return v.cls
            if name == '__dict__': raise Unsupported('__dict__')
            m = self.find_method(v.cls, name)
            if m is None:
                g = self.find_method(v.cls, '__getattr__')
                if g is not None: return self.apply(self.bind(g, v), [name], {})
                raise_(AttributeError, name)
            return self.bind(m, v)
        if isinstance(v, SRef):
            cc = core.cx()
            if cc.branch(v.t == 0): raise_(AttributeError, "'NoneType' object has no attribute %r" % name)
            if name in self.heapclasses[v.cls]:
                return cc.heap[(v.cls, name)](v.t)
            m = self.find_method(v.cls, name)
            if m is None: raise_(AttributeError, name)
            if isinstance(m, types.MemberDescriptorType): raise Unsupported('slot ' + name)
            if name == '__class__': return v.cls
            return self.bind(m, v)
        if isinstance(v, Super):
            obj, start = v.obj, v.cls
            cls = obj.cls if isinstance(obj, (Obj, SRef)) else obj
            mro = cls.__mro__
            i = mro.index(start)
            for k in mro[i + 1:]:
                if (k, name) in self.classmodels: return self.bind(self.classmodels[(k, name)], obj)
                if name in k.__dict__:
                    if k is object:
                        if name == '__init__': return Builtin(None, 'noop')
                        raise Unsupported('object.' + name)
                    return self.bind(k.__dict__[name], obj)
            raise_(AttributeError, name)
        if isinstance(v, Ext):
            if hasattr(v, 'a_' + name): return getattr(v, 'a_' + name)(self)
            if name in getattr(v, 'fields', ()): return v.fields[name]
            if hasattr(v, 'm_' + name): return Builtin(v, name)
            raise Unsupported('attribute %s of %s' % (name, type(v).__name__))
        if isinstance(v, ExcVal):
            if name == 'args': return tuple(v.args)
            if name == '__class__': return v.cls
            return getattr(v, 'attrs', {}).get(name, MISSING) if name in getattr(v, 'attrs', {}) else unsupported_attr(name)
        if isinstance(v, Closure) and name == '__name__': return v.name
        if isinstance(v, (PyList, PyDict, PySet, SymIter, GenObj, SStr, SText, STok, SInt, SReal, SBool)):
            return Builtin(v, name)
        if v is None: raise_(AttributeError, "'NoneType' object has no attribute %r" % name)
        if isinstance(v, (str, bytes, tuple)) :
            if not hasattr(v, name): raise_(AttributeError, name)
            return Builtin(v, name)
        if isinstance(v, (int, float)) and not isinstance(v, type):
            return Builtin(v, name)
        if isinstance(v, types.ModuleType):
            try: return self.wrap(getattr(v, name))
            except AttributeError: raise_(AttributeError, name)
        if isinstance(v, type):
            for k in v.__mro__:
                if (k, name) in self.classmodels: return self.classmodels[(k, name)]
                if name in k.__dict__:
                    m = k.__dict__[name]
                    if isinstance(m, staticmethod): return m.__func__
                    if isinstance(m, classmethod): return Bound(m.__func__, v)
                    if isinstance(m, types.FunctionType): return m
                    break
            try: return self.wrap(getattr(v, name))
            except AttributeError: raise_(AttributeError, name)
        if isinstance(v, V): raise Unsupported('attribute %s of %r' % (name, v))
        h = self.models.get(id(v))
        try: return self.wrap(getattr(v, name))
        except AttributeError: raise_(AttributeError, name)

    def setattr_(self, v, name, val):
        v = force(v)
        if isinstance(v, Obj):
            m = self.find_method(v.cls, name)
            if isinstance(m, property):
                if m.fset is None: raise_(AttributeError, name)
                self.apply(m.fset, [v, val], {})
                return
            v.write(name, val)
            v.fields[name] = val
            return
        if isinstance(v, SRef):
            cc = core.cx()
            if cc.branch(v.t == 0): raise_(AttributeError, name)
            if name not in self.heapclasses[v.cls]: raise_(AttributeError, name)
            HEAP().write((v.cls, name), val)
            old = cc.heap[(v.cls, name)]
            t = v.t
            cc.heap[(v.cls, name)] = memo1(lambda r: ops.lazy_key_ite(r, t, val, old))
            return
        if isinstance(v, Ext):
            if hasattr(v, 's_' + name):
                getattr(v, 's_' + name)(self, val)
                return
            raise Unsupported('attribute assignment to %s' % type(v).__name__)
        if v is None: raise_(AttributeError, name)
        raise Unsupported('attribute assignment to %r' % (v,))

    # ---------------------------------------------------------- expressions

    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def test(self, n, env):
        """Evaluate a condition and branch."""
        return self.truth(self.ev(n, env))

    def truth(self, v):
        t = self.truth_term(v)
        return core.cx().branch(t)

    def truth_term(self, v):
        v = force(v)
        if isinstance(v, Obj):
            m = self.find_method(v.cls, '__bool__')
            if m is not None: return self.truth_term(self.apply(self.bind(m, v), [], {}))
            m = self.find_method(v.cls, '__len__')
            if m is not None: return self.truth_term(self.apply(self.bind(m, v), [], {}))
            return True
        return ops.truth(v)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        e = env
        name = n.id
        v = MISSING
        if name not in env.globalnames:
            while e is not None:
                if name in e.vars:
                    v = e.vars[name]
                    break
                if name in e.local and name not in e.nonlocals:
                    raise_(UnboundLocalError, name)
                e = e.parent
        if v is MISSING:
            if name in env.globs:
                return self.wrap(env.globs[name])
            if hasattr(_b, name): return getattr(_b, name)
            if name == '__class__': return env.owner
            raise_(NameError, name)
        if isinstance(v, SAlt):
            for g, w in v.alts:
                if w is UNBOUND:
                    v = force(v)
                    break
        if v is UNBOUND: raise_(UnboundLocalError, name)
        if has_lost(v): raise Unsupported('the content of %s in a loop' % name)
        return v

    def e_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        return self.subscript(v, n.slice, env)

    def subscript(self, v, sl, env):
        v = force(v)
        if isinstance(sl, ast.Slice):
            lo, hi, st = [self.ev(x, env) if x is not None else None for x in (sl.lower, sl.upper, sl.step)]
            lo, hi, st = force(lo), force(hi), force(st)
            if isinstance(v, PyList): return ops.list_slice(v, lo, hi, st, site='slice:%d' % sl.lineno)
            if isinstance(v, tuple) and all(is_concrete(x) for x in (lo, hi, st)): return v[lo:hi:st]
            if ops.isstr(v):
                if st is not None:
                    if is_concrete(v) and is_concrete((lo, hi, st)): return v[lo:hi:st]
                    raise Unsupported('string slice with a step')
                return ops.str_slice(v, lo, hi)
            if isinstance(v, Ext) and hasattr(v, 'm___getslice__') and st is None: return v.m___getslice__(self, [lo, hi], {})
            raise Unsupported('slice of %r' % (v,))
        i = self.ev(sl, env)
        return self.getitem(v, i)

    def getitem(self, v, i):
        v = force(v)
        if isinstance(v, Obj):
            m = self.find_method(v.cls, '__getitem__')
            if m is None: raise_(TypeError, 'object is not subscriptable')
            return self.apply(self.bind(m, v), [i], {})
        if isinstance(v, Ext): return v.m___getitem__(self, [i], {})
        if isinstance(v, (SInt, SReal, SBool)): raise_(TypeError, 'object is not subscriptable')
        r = ops.subscript(v, i)
        if r is None and isinstance(v, V) and not isinstance(v, (PyList, PyDict)):
            raise Unsupported('subscript of %r' % (v,))
        return r

    def setitem(self, v, i, val):
        v = force(v)
        if isinstance(v, Obj):
            m = self.find_method(v.cls, '__setitem__')
            if m is None: raise_(TypeError, 'no item assignment')
            self.apply(self.bind(m, v), [i, val], {})
        elif isinstance(v, Ext): v.m___setitem__(self, [i, val], {})
        elif isinstance(v, PyDict): ops.dict_set(v, force(i), val)
        elif isinstance(v, PyList): ops.list_setitem(v, force(i), val)
        else: raise Unsupported('item assignment to %r' % (v,))

    def delitem(self, v, i):
        v = force(v)
        if isinstance(v, Obj):
            m = self.find_method(v.cls, '__delitem__')
            if m is None: raise_(TypeError, 'no item deletion')
            self.apply(self.bind(m, v), [i], {})
        elif isinstance(v, Ext): v.m___delitem__(self, [i], {})
        elif isinstance(v, PyDict):
            i = force(i)
            ok, _ = ops.dict_lookup(v, i)
            if not ok: raise_(KeyError, i)
            ops.dict_del(v, i)
        elif isinstance(v, PyList): ops.list_delitem(v, force(i))
        else: raise Unsupported('item deletion of %r' % (v,))

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and env.lookup_is_builtin('super'):
            e = env
            while e.owner is None or e.selfarg is None:
                e = e.parent
                if e is None: raise Unsupported('super()')
            if n.args: raise Unsupported('super with arguments')
            return Super(e.owner, force(e.vars[e.selfarg]))
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.tolist(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                v = force(v)
                if not isinstance(v, PyDict) or v.symbolic: raise Unsupported('** of a symbolic dict')
                for kk, vv in v.items: kw[kk] = vv
            else:
                kw[k.arg] = v
        self.engine.at(n)
        return self.apply(f, args, kw)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        a = force(a)
        b = force(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {'Add': '__add__', 'BitOr': '__or__', 'Sub': '__sub__'}.get(op)
            if isinstance(a, Obj) and nm:
                m = self.find_method(a.cls, nm)
                if m: return self.apply(self.bind(m, a), [b], {})
            raise Unsupported('operator on objects')
        if isinstance(a, Ext) and hasattr(a, 'm___%s__' % op.lower()): return getattr(a, 'm___%s__' % op.lower())(self, [b], {})
        if isinstance(b, Ext) and hasattr(b, 'm___r%s__' % op.lower()): return getattr(b, 'm___r%s__' % op.lower())(self, [a], {})
        if op == 'Mod' and isinstance(a, (str, SStr)):
            from . import models
            return models.percent_format(self, a, b)
        return ops.binop(op, a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        k = type(n.op).__name__
        if k == 'Not':
            t = self.truth_term(v)
            if isinstance(t, bool): return not t
            return ops.mkbool(z3.Not(t))
        v = force(v)
        if k == 'USub': return ops.neg(v)
        if k == 'UAdd': return v
        if k == 'Invert' and isinstance(v, int): return ~v
        if k == 'Invert': return ops.mkint(-ops.intterm(v) - 1)
        raise Unsupported(k)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1: return v
            if self.truth(v) != isand: return v
        return v

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            x = self.compare(type(op).__name__, left, right)
            last = i == len(n.ops) - 1
            if last and res is True: return ops.mkbool(x) if not isinstance(x, V) else x
            if not core.cx().branch(x): return False
            left = right
        return res

    def compare(self, op, a, b):
        a = force(a)
        b = force(b)
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if op == 'Is' else ops.not_(r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else ops.not_(r)
        if isinstance(a, (Obj, Ext)) or isinstance(b, (Obj, Ext)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    nm = {'Eq': '__eq__', 'NotEq': '__eq__', 'Lt': '__lt__', 'Gt': '__gt__'}[op]
                    m = self.find_method(x.cls, nm)
                    if m is not None: raise Unsupported('user-defined comparison')
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ext) and hasattr(x, 'm___eq__') and op in ('Eq', 'NotEq'):
                    r = x.m___eq__(self, [y], {})
                    return r if op == 'Eq' else ops.not_(r)
            if op == 'Eq': return a is b
            if op == 'NotEq': return a is not b
            raise Unsupported('order of objects')
        if op == 'Eq': return ops.eq(a, b)
        if op == 'NotEq': return ops.not_(ops.eq(a, b))
        if op == 'Lt': return ops.lt(a, b)
        if op == 'LtE': return ops.lt(a, b, True)
        if op == 'Gt': return ops.lt(b, a)
        if op == 'GtE': return ops.lt(b, a, True)
        raise Unsupported(op)

    def identical(self, a, b):
        if a is b: return True
        if isinstance(a, SRef) or isinstance(b, SRef): return ops.eq(a, b)
        if a is None or b is None: return False
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return ops.eq(a, b)
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)): return False
        if isinstance(a, (Obj, Ext, PyList, PyDict, PySet)) or isinstance(b, (Obj, Ext, PyList, PyDict, PySet)):
            return False
        if isinstance(a, type) and isinstance(b, type): return False
        if type(a) is tuple and type(b) is tuple and (keeps_identity(a) or keeps_identity(b)):
            e = ops.eq(a, b)             # tuples that differ are two; of two that are equal nothing is known
            if e is False or e is not True and not core.cx().branch(e): return False
            return core.cx().branch(core.cx().fresh('same_tuple', B))
        raise Unsupported('is')

    def contains(self, cont, k):
        cont = force(cont)
        if isinstance(cont, Obj):
            m = self.find_method(cont.cls, '__contains__')
            if m is not None: return self.truth_term(self.apply(self.bind(m, cont), [k], {}))
            m = self.find_method(cont.cls, '__iter__')
            if m is not None: return self.contains(self.apply(self.bind(m, cont), [], {}), k)
            raise Unsupported('in an object')
        if isinstance(cont, Ext): return self.truth_term(cont.m___contains__(self, [k], {}))
        if isinstance(cont, GenObj):
            for x in cont.gen:
                e = ops.eq(x, k)
                if core.cx().branch(e): return True
            return False
        if isinstance(cont, SymIter) and cont.once:     # what was looked for may end it early
            from . import models
            it, cont = cont, models.to_set(self, cont, 'in')
            for x in it.once: x.state = 'part'
        elif isinstance(cont, SymIter) and cont.stages:
            from . import models
            cont = models.to_set(self, cont, 'in')
        return ops.contains(cont, k)

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.test(n.test, env) else n.orelse, env)

    def e_Lambda(self, n, env):
        return Closure(n, env, [self.ev(d, env) for d in n.args.defaults],
                       {a.arg: self.ev(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None})

    def e_Tuple(self, n, env):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred): out.extend(self.tolist(self.ev(x.value, env)))
            else: out.append(self.ev(x, env))
        return tuple(out)

    def e_List(self, n, env):
        return PyList(list(self.e_Tuple(n, env)), site='list:%d:%d' % (n.lineno, n.col_offset))

    def e_Set(self, n, env):
        s = PySet([], site='set:%d:%d' % (n.lineno, n.col_offset))
        for x in self.e_Tuple(n, env): ops.set_add(s, force(x))
        return s

    def e_Dict(self, n, env):
        d = PyDict([], site='dict:%d:%d' % (n.lineno, n.col_offset))
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = force(self.ev(v, env))
                if not isinstance(o, PyDict) or o.symbolic: raise Unsupported('** in a dict')
                for kk, vv in o.items: ops.dict_set(d, kk, vv)
            else:
                kk = force(self.ev(k, env))
                ops.dict_set(d, kk, self.ev(v, env))
        return d

    def e_JoinedStr(self, n, env):
        from . import models
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
                parts.append(models.format_value(self, x, chr(v.conversion) if v.conversion >= 0 else '', spec))
        return models.concat(parts)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env.set(n.target.id, v)
        return v

    def e_Starred(self, n, env): raise Unsupported('starred')

    # comprehensions

    def comp_env(self, env, gens):
        e = Env('comp', env.globs, env, env.owner)
        s = Scope()
        for g in gens: s.visit(g.target)
        e.local = s.names
        return e

    def e_ListComp(self, n, env):
        return self.comp(n, env, lambda it: self.b_list([it], {}), 'listcomp:%d' % n.lineno, lambda acc, v: ops.list_append(acc, v), PyList)

    def e_SetComp(self, n, env):
        return self.comp(n, env, lambda it: self.b_set([it], {}), 'setcomp:%d' % n.lineno, lambda acc, v: ops.set_add(acc, v), PySet)

    def e_GeneratorExp(self, n, env):
        return self.comp(n, env, None, 'genexp:%d' % n.lineno)

    def e_DictComp(self, n, env):
        g2 = ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        ast.copy_location(g2, n)
        ast.fix_missing_locations(g2)
        return self.comp(g2, env, lambda it: self.b_dict([it], {}), 'dictcomp:%d' % n.lineno, lambda acc, v: ops.dict_set(acc, force(v[0]), v[1]), PyDict)

    def comp(self, n, env, collect, site, add=None, kind=None):
        gens = n.generators
        it = self.iter_(self.ev(gens[0].iter, env))
        if isinstance(it, SymIter) and len(gens) == 1 and add is not None:
            once = [(x, x.state) for x in it.once]
            try: return self.comp1(n, env, collect, gens, it)
            except Unsupported as e:
                if 'in a pure context' not in str(e): raise
            # its elements change something: as the loop that it is
            for x, state in once: x.state = state
            it = self.drain(it)
            acc = kind([], site=site)
            e2 = self.comp_env(env, gens)
            def body(v):
                for cond in gens[0].ifs:
                    if not self.test(cond, e2): return None
                add(acc, self.ev(n.elt, e2))
                return None
                yield
            for _ in self.cut_for(n, it, e2, lambda v: self.assign(gens[0].target, v, e2), body): pass
            return acc
        return self.comp1(n, env, collect, gens, it)

    def comp1(self, n, env, collect, gens, it):
        cenv = self.comp_env(env, gens)
        if isinstance(it, SymIter) and len(gens) == 1:
            g = gens[0]
            def stage(v):
                e2 = self.comp_env(env, gens)
                self.assign(g.target, v, e2)
                for cond in g.ifs:
                    if not self.test(cond, e2): return False, None
                return True, self.ev(n.elt, e2)
            r = it.derive(stage)
        else:
            r = GenObj(self.comp_gen(n.elt, gens, 0, it, cenv), 'genexp')
        return collect(r) if collect else r

    def comp_gen(self, elt, gens, i, it, env):
        g = gens[i]
        for v in self.pull(it, 'comp'):
            self.assign(g.target, v, env)
            ok = True
            for cond in g.ifs:
                if not self.test(cond, env):
                    ok = False
                    break
            if not ok: continue
            if i + 1 < len(gens):
                it2 = self.iter_(self.ev(gens[i + 1].iter, env))
                yield from self.comp_gen(elt, gens, i + 1, it2, env)
            else:
                yield self.ev(elt, env)

    # ---------------------------------------------------------- iteration

    def iter_(self, v):
        """Something pull() accepts, or a SymIter."""
        v = force(v)
        cc = core.cx()
        if isinstance(v, (GenObj, SymIter)): return v
        h = cc.ghost.get('iteration')
        if h is not None: h(v)
        if isinstance(v, Obj):
            m = self.find_method(v.cls, '__iter__')
            if m is None:
                m = self.find_method(v.cls, '__getitem__')
                raise_(TypeError, 'not iterable') if m is None else unsup('old-style iteration')
            return self.iter_(self.apply(self.bind(m, v), [], {}))
        if isinstance(v, Ext):
            return self.iter_(v.m___iter__(self, [], {}))
        if isinstance(v, PyList):
            if not v.symbolic: return v
            n, g = v.n, v._get
            return SymIter('seq', n, lambda k: g(k), src=v)
        if isinstance(v, PySet):
            if not v.symbolic: return v
            return SymIter('set', v.size, None, v._mem, sort_or(v.sort, Tok), src=v)
        if isinstance(v, PyDict):
            if not v.symbolic: return PyList([k for k, _ in v.items], site='keys')
            return SymIter('set', v.size, None, v._dom, sort_or(v.sort, Tok), src=v)
        if isinstance(v, (str, bytes, tuple, range)): return v
        if isinstance(v, SStr):
            t = v.t
            if v.kind is str: return SymIter('seq', z3.Length(t), lambda k: SStr(z3.SubString(t, k, 1), str), src=v)
            return SymIter('seq', z3.Length(t), lambda k: SInt(z3.StrToCode(z3.SubString(t, k, 1))), src=v)
        if v is None or isinstance(v, (int, float, SInt, SReal, SBool)): raise_(TypeError, 'object is not iterable')
        if isinstance(v, V): raise Unsupported('iteration over %r' % (v,))
        if isinstance(v, (list, dict, set, frozenset)): return self.iter_(self.wrap(v))
        if hasattr(v, '__next__') and type(v).__module__ == 'builtins' or type(v).__name__ == 'callable_iterator':
            return GenObj(iter(v))
        raise Unsupported('iteration over %r' % (v,))

    def drain(self, v):
        """As iter_(), to go through it at once: nothing is left of an iterator."""
        it = self.iter_(v)
        if isinstance(it, SymIter) and it.drain(): return PyList([], site='used')
        return it

    def pull(self, it, what):
        """Python generator over the elements; only for unrolled iteration."""
        if isinstance(it, GenObj):
            yield from it.gen
        elif isinstance(it, PyList):
            i = 0
            while i < len(it.items):
                yield it.items[i]
                i += 1
                if it.symbolic: raise Unsupported('list became symbolic during iteration')
        elif isinstance(it, PySet):
            n = len(it.items)
            for x in list(it.items):
                if it.symbolic or len(it.items) != n: raise_(RuntimeError, 'Set changed size during iteration')
                yield x
        elif isinstance(it, SymIter):
            raise Unsupported('%s over a symbolic collection' % what)
        else:
            yield from it

    def tolist(self, v):
        """A Python list of the elements, for concrete collections."""
        it = self.iter_(v)
        return list(self.pull(it, 'unpacking'))

    # ---------------------------------------------------------- assignment

    def assign(self, target, v, env):
        if isinstance(target, ast.Name):
            env.set(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            vals = self.unpack(v, target.elts)
            for t, x in zip(target.elts, vals):
                if isinstance(t, ast.Starred): t = t.value
                self.assign(t, x, env)
        elif isinstance(target, ast.Attribute):
            self.setattr_(self.ev(target.value, env), target.attr, v)
        elif isinstance(target, ast.Subscript):
            o = force(self.ev(target.value, env))
            if isinstance(target.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.setitem(o, self.ev(target.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        v = force(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, PyList) and v.symbolic:
            if star: raise Unsupported('starred unpacking')
            if not core.cx().branch(v.n == len(elts)): raise_(ValueError, 'unpacking')
            return [v.get(z3.IntVal(i)) for i in range(len(elts))]
        if isinstance(v, (SInt, SReal, SBool, int, float)) or v is None: raise_(TypeError, 'cannot unpack')
        vals = self.tolist(v)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < len(elts) - 1: raise_(ValueError, 'unpacking')
            return vals[:i] + [PyList(vals[i:len(vals) - after], site='star')] + vals[len(vals) - after:]
        if len(vals) != len(elts): raise_(ValueError, 'unpacking')
        return vals

    # ---------------------------------------------------------- statements

    def block(self, stmts, env):
        for s in stmts:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None: raise Unsupported('statement %s' % type(s).__name__)
            self.engine.at(s)
            r = m(s, env)
            if r is None: continue
            if isinstance(r, types.GeneratorType):
                r = yield from r
                if r is not None: return r
            else:
                return r
        return None

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, env, None)
        if isinstance(s.value, ast.YieldFrom):
            return self.do_yield_from(s.value, env)
        if isinstance(s.value, ast.Constant): return None
        self.ev(s.value, env)

    def do_yield(self, y, env, target):
        v = self.ev(y.value, env) if y.value is not None else None
        got = yield v
        if target is not None:
            self.assign(target, got, env)
        return None

    def do_yield_from(self, y, env):
        it = self.drain(self.ev(y.value, env))
        if isinstance(it, SymIter):
            tmp = ast.Name(id='$yf', ctx=ast.Store())
            def body(v):
                yield v
                return None
            return (yield from self.cut_for(y, it, env, lambda v: None, body))
        for v in self.pull(it, 'yield from'):
            yield v
        return None

    def s_Assign(self, s, env):
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, env, s.targets[0])
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.e_Name(ast.Name(id=t.id, ctx=ast.Load()), env)
            env.set(t.id, self.inplace(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = force(self.ev(t.value, env))
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.inplace(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = force(self.ev(t.value, env))
            i = self.ev(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.ev(s.value, env)))
        else: raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        cur = force(cur)
        v = force(v)
        if isinstance(cur, PyList) and op == 'Add':
            self.call_builtin(cur, 'extend', [v], {})
            return cur
        if isinstance(cur, PySet) and op == 'BitOr':
            self.call_builtin(cur, 'update', [v], {})
            return cur
        if isinstance(cur, PySet) and isinstance(v, PySet):
            r = ops.set_op(op, cur, v)
            cur.write('*')
            if r.symbolic: cur.set_mem(r._mem, r.sort)
            else: cur.items = r.items
            return cur
        return self.binop(op, cur, v)

    def s_If(self, s, env):
        return self.block(s.body if self.test(s.test, env) else s.orelse, env)

    def s_Pass(self, s, env): return None
    def s_Global(self, s, env): return None
    def s_Nonlocal(self, s, env): return None
    def s_Return(self, s, env):
        return ('return', self.ev(s.value, env) if s.value is not None else None)
    def s_Break(self, s, env): return ('break',)
    def s_Continue(self, s, env): return ('continue',)

    def s_Assert(self, s, env):
        if not self.test(s.test, env): raise_(AssertionError)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.write(t.id, UNBOUND)
                if t.id not in env.vars: raise_(UnboundLocalError, t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = force(self.ev(t.value, env))
                if isinstance(t.slice, ast.Slice):
                    lo, hi = [force(self.ev(x, env)) if x is not None else None for x in (t.slice.lower, t.slice.upper)]
                    if t.slice.step is not None or not isinstance(o, PyList): raise Unsupported('del slice')
                    ops.list_delslice(o, lo, hi)
                else:
                    self.delitem(o, self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = force(self.ev(t.value, env))
                if not isinstance(o, Obj): raise Unsupported('del attribute')
                if t.attr not in o.fields: raise_(AttributeError, t.attr)
                o.write(t.attr, UNBOUND)
                del o.fields[t.attr]
            else: raise Unsupported('del')

    def s_FunctionDef(self, s, env):
        f = Closure(s, env, [self.ev(d, env) for d in s.args.defaults],
                    {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            if getattr(dv, '__name__', '') == 'contextmanager':
                raise Unsupported('nested context manager')
            v = self.apply(dv, [v], {})
        env.set(s.name, v)

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname: env.set(a.asname, m)
            else: env.set(a.name.split('.')[0], sys.modules[a.name.split('.')[0]])

    def s_ImportFrom(self, s, env):
        import importlib
        if s.level: raise Unsupported('relative import')
        m = importlib.import_module(s.module)
        for a in s.names:
            env.set(a.asname or a.name, self.wrap(getattr(m, a.name)))

    def s_Raise(self, s, env):
        cc = core.cx()
        if s.exc is None:
            e = cc.ghost.get('handling')
            if not e: raise_(RuntimeError, 'No active exception to reraise')
            raise PyRaise(e[-1])
        v = force(self.ev(s.exc, env))
        if s.cause is not None: self.ev(s.cause, env)
        if isinstance(v, type) and issubclass(v, BaseException): v = ExcVal(v, ())
        if not isinstance(v, ExcVal): raise_(TypeError, 'exceptions must derive from BaseException')
        raise PyRaise(v)

    def matches(self, exc, t):
        t = force(t)
        if isinstance(t, tuple): return any(self.matches(exc, x) for x in t)
        if not isinstance(t, type): raise Unsupported('except clause')
        if getattr(exc, 'anyof', None):
            # an unknown exception below one of several classes
            raise Unsupported('unknown exception class')
        return issubclass(exc.cls, t)

    def s_Try(self, s, env):
        cc = core.cx()
        sig = None
        pending = None
        handled = cc.ghost.setdefault('handling', [])
        try:
            try:
                depth = len(cc.callstack)
                sig = yield from self.block(s.body, env)
                ok = True
            except PyRaise as e:
                del cc.callstack[depth:]
                ok = False
                for h in s.handlers:
                    if h.type is None or self.matches(e.exc, self.ev(h.type, env)):
                        if h.name: env.set(h.name, e.exc)
                        handled.append(e.exc)
                        try:
                            sig = yield from self.block(h.body, env)
                        finally:
                            handled.pop()
                        if h.name and h.name in env.vars:
                            env.write(h.name, UNBOUND)
                            del env.vars[h.name]
                        break
                else:
                    raise
            if ok and sig is None and s.orelse:
                sig = yield from self.block(s.orelse, env)
        except PyRaise as e:
            pending = e
        if s.finalbody:
            fs = yield from self.block(s.finalbody, env)
            if fs is not None: return fs
        if pending is not None: raise pending
        return sig

    def s_With(self, s, env):
        return self.with_items(s, list(s.items), env)

    def with_items(self, s, items, env):
        if not items:
            r = yield from self.block(s.body, env)
            return r
        item = items[0]
        cm = force(self.ev(item.context_expr, env))
        v = self.enter(cm)
        if item.optional_vars is not None: self.assign(item.optional_vars, v, env)
        try:
            sig = yield from self.with_items(s, items[1:], env)
        except PyRaise as e:
            if self.exit(cm, e): return None
            raise
        self.exit(cm, None)
        return sig

    def enter(self, cm):
        if isinstance(cm, Ctx):
            try: return next(cm.gen.gen)
            except StopIteration: raise_(RuntimeError, "generator didn't yield")
        if isinstance(cm, Ext): return cm.m___enter__(self, [], {})
        if isinstance(cm, Obj): return self.apply(self.getattr_(cm, '__enter__'), [], {})
        raise Unsupported('context manager %r' % (cm,))

    def exit(self, cm, e):
        if isinstance(cm, Ctx):
            if e is None:
                try: next(cm.gen.gen)
                except StopIteration: return False
                raise_(RuntimeError, "generator didn't stop")
            try:
                cm.gen.gen.throw(e)
            except StopIteration:
                return True
            except PyRaise as x:
                if x is e or x.exc is e.exc: return False
                raise
            raise_(RuntimeError, "generator didn't stop after throw()")
        args = [None, None, None] if e is None else [e.exc.cls, e.exc, None]
        if isinstance(cm, Ext): r = cm.m___exit__(self, args, {})
        else: r = self.apply(self.getattr_(cm, '__exit__'), args, {})
        return self.truth(r) if e is not None else False

    # loops

    def s_For(self, s, env):
        it = self.drain(self.cuttable(self.ev(s.iter, env)))
        if isinstance(it, SymIter):
            return self.cut_for(s, it, env, lambda v: self.assign(s.target, v, env),
                                lambda v: self.block(s.body, env), s.orelse)
        return self.unrolled_for(s, it, env)

    def cuttable(self, v):
        """A long tuple of texts as a symbolic collection, where that is asked for."""
        h = core.cx().ghost.get('cutfor')
        v = force(v)
        if h is None or not h(None, v): return v
        if isinstance(v, range):
            it = SymIter('seq', z3.IntVal(len(v)), lambda k: ops.mkint(v.start + k * v.step), src="range")
            it.range = (z3.IntVal(v.start), z3.IntVal(v.stop), v.step)
            return it
        n = z3.IntVal(len(v))
        def elem(k):
            t = ops.strterm(v[-1])
            for i, x in reversed(list(enumerate(v[:-1]))): t = z3.If(k == i, ops.strterm(x), t)
            return SStr(t, str)
        return PyList(n=n, get=elem, site='tuple')

    def unrolled_for(self, s, it, env):
        count = 0
        gen = self.pull(it, 'for')
        while True:
            try: v = next(gen)
            except StopIteration: break
            count += 1
            if count > MAXUNROLL: raise Unsupported('long loop')
            self.assign(s.target, v, env)
            sig = yield from self.block(s.body, env)
            if sig:
                if sig[0] == 'break':
                    gen.close()
                    return None
                if sig[0] == 'return': return sig
        if s.orelse:
            return (yield from self.block(s.orelse, env))
        return None

    def s_While(self, s, env):
        cc = core.cx()
        cut = False
        if not cc.ghost.get('concrete') and not cc.ghost.get('nocut'):
            if isinstance(s.test, ast.Constant): cut = True
            else:
                # is the condition symbolic? (evaluated again by the loop)
                v = self.peek(s.test, env)
                cut = not isinstance(v, bool)
                if not cut and v:
                    cut = bool(cc.engine.is_cut(self.loop_key(s)))
        if cut: return self.cut_while(s, env)
        return self.unrolled_while(s, env)

    def peek(self, test, env):
        try:
            v = merge_eval(lambda: self.ev(test, env), raises=True)
            if isinstance(v, PyRaise): return None
            if isinstance(v, SAlt): return None
            return self.truth_term(v) if not isinstance(v, (Obj, Ext)) else True
        except Unsupported:
            return None

    def unrolled_while(self, s, env):
        cc = core.cx()
        count = 0
        while self.test(s.test, env):
            count += 1
            if count > 60 and not cc.ghost.get('concrete'): raise Unsupported('long while loop')
            if count > MAXUNROLL * 10: raise Unsupported('long while loop')
            sig = yield from self.block(s.body, env)
            if sig:
                if sig[0] == 'break': return None
                if sig[0] == 'return': return sig
            if not cc.ghost.get('concrete') and not cc.ghost.get('nocut'):
                v = self.peek(s.test, env)
                if not isinstance(v, bool):
                    # the condition has become symbolic: cut the loop from the start
                    cc.engine.force_cut(self.loop_key(s))
        if s.orelse:
            return (yield from self.block(s.orelse, env))
        return None

    def loop_key(self, s):
        cc = core.cx()
        base = (getattr(s, 'lineno', 0), getattr(s, 'col_offset', 0), type(s).__name__, tuple(cc.callstack))
        return base

    def cut_while(self, s, env):
        from .loops import Loop
        loop = Loop(self, self.loop_key(s), None)
        with loop:
            loop.entry()
            loop.havoc()
            istrue = isinstance(s.test, ast.Constant) and bool(s.test.value)
            if istrue or self.test(s.test, env):
                loop.begin_iteration()
                loop.watch(env)
                sig = yield from self.block(s.body, env)
                if sig and sig[0] == 'return': return sig
                if not (sig and sig[0] == 'break'):
                    loop.end_iteration()
                loop.leave()
                return None
            loop.leave()
        if s.orelse:
            return (yield from self.block(s.orelse, env))
        return None

    def cut_for(self, s, it, env, bindf, bodyf, orelse=()):
        from .loops import Loop
        cc = core.cx()
        loop = Loop(self, self.loop_key(s), it)
        with loop:
            loop.entry()
            loop.havoc()
            if cc.choose(2) == 0:
                v = loop.begin_iteration()
                if it.kind == 'seq' and it.n is None: loop.watch(env)
                keep = True
                for st in it.stages:
                    keep, v = st(v)
                    if not keep: break
                sig = None
                if keep:
                    bindf(v)
                    sig = yield from bodyf(v)
                for x in it.once: x.state = 'part'
                if sig and sig[0] == 'return': return sig
                if not (sig and sig[0] == 'break'):
                    loop.end_iteration()
                loop.leave()
                return None
            loop.exit_assume()
            loop.leave()
        if orelse:
            return (yield from self.block(orelse, env))
        return None


def has_lost(v): return v is LOST or isinstance(v, SAlt) and any(w is LOST for _, w in v.alts)
def unsup(x): raise Unsupported(x)
def unsupported_attr(x): raise Unsupported('attribute ' + x)


def lookup_is_builtin(self, name):
    e = self
    while e is not None:
        if name in e.vars: return False
        e = e.parent
    return name not in self.globs
Env.lookup_is_builtin = lookup_is_builtin


class ModelMethod:
    """A model of a method: fn(interp, self, args, kw)."""
    def __init__(self, fn):
        self.fn = fn


class _Heap(Stamped):
    def __init__(self):
        super().__init__('heap')


def HEAP():
    cc = core.cx()
    h = cc.ghost.get('heapobj')
    if h is None:
        h = cc.ghost['heapobj'] = _Heap()
        h.stamp = 0
    return h
