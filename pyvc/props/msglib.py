"""Messages: the base class email.message.Message as a contract.

The headers of a message are an ordered list of items; an item is one header
(its name as written, and its value) or an unknown stretch of headers, of which
is known which names it does not contain."""
import math
from email.message import Message as _Message
from email.header import Header
import z3
from .. import core, ops, models
from ..core import *
from ..interp import ModelMethod

from sbclassifier import message
from sbclassifier.message import Message, Classification

S = z3.StringSort()

TRUSTED_MESSAGE = ['email.message.Message: the headers are an ordered list of names and values; setting appends, '
                   'getting gives the first of that name (case does not matter) or None, deleting removes all of that '
                   'name, replace_header replaces the value of the first and raises KeyError if there is none']


class Item:
    """One header."""
    def __init__(self, name, value, lname=None):
        self.name = name                        # str, or a str value if the case is not known
        self.lname = lname or name.lower()
        self.value = value


class Stretch:
    """Unknown headers, none of them of the names given."""
    def __init__(self, label, without, only=None):
        self.label, self.without = label, frozenset(without)
        self.only = only                        # the names it consists of, if they are known

    def drop(self, n):
        """What is left of it without the headers of name n."""
        if n in self.without: return [self]
        if self.only is not None and n not in self.only: return [self]
        without = self.without | {n}
        if self.only is not None and set(self.only) <= without: return []
        return [Stretch('%s without %s' % (self.label, n), without, self.only)]


class Headers(Ext):
    pytype = list
    def __init__(self, items):
        super().__init__('headers')
        self.fields = {'items': tuple(items)}

    @property
    def items(self): return self.fields['items']

    def set(self, items):
        self.write('items', None)
        self.fields['items'] = tuple(items)

    def find(self, lname):
        for i, h in enumerate(self.items):
            if isinstance(h, Stretch):
                if lname not in h.without and (h.only is None or lname in h.only): raise Unsupported('header %s of unknown headers' % lname)
            elif h.lname == lname: return i
        return None

    def values(self, lname):
        """All values of a name; (values, exact): not exact if there may be more."""
        exact = all(lname in h.without for h in self.items if isinstance(h, Stretch))
        return [h.value for h in self.items if isinstance(h, Item) and h.lname == lname], exact


def hname(n):
    n = force(n)
    if isinstance(n, str): return n
    raise Unsupported('name of a header: %r' % (n,))


def headers_of(m):
    h = m.fields.get('_headers')
    if not isinstance(h, Headers): raise Unsupported('headers of a message')
    return h


def add_contracts(vc):
    """The methods of the base class."""
    def meth(name):
        def deco(fn):
            vc.i.classmodels[(_Message, name)] = ModelMethod(fn)
            return fn
        return deco

    @meth('__init__')
    def init(interp, self, a, kw):
        for f, v in (('policy', None), ('_headers', Headers([])), ('_unixfrom', None), ('_payload', None), ('_charset', None),
                     ('preamble', None), ('epilogue', None), ('defects', PyList([])), ('_default_type', 'text/plain')):
            self.fields[f] = v
        return None

    @meth('get')
    def get(interp, self, a, kw):
        h = headers_of(self)
        i = h.find(hname(a[0] if a else kw['name']).lower())
        if i is None: return a[1] if len(a) > 1 else kw.get('failobj')
        return h.items[i].value

    @meth('__getitem__')
    def getitem(interp, self, a, kw): return get(interp, self, a[:1], {})

    @meth('__contains__')
    def contains(interp, self, a, kw): return headers_of(self).find(hname(a[0]).lower()) is not None

    @meth('__setitem__')
    def setitem(interp, self, a, kw):
        h = headers_of(self)
        n, v = hname(a[0]), force(a[1])
        h.set(h.items + (Item(n, v),))
        return None

    @meth('__delitem__')
    def delitem(interp, self, a, kw):
        h = headers_of(self)
        n = hname(a[0]).lower()
        out = []
        for x in h.items:
            if isinstance(x, Stretch):
                out += x.drop(n)
            elif x.lname != n: out.append(x)
        h.set(out)
        return None

    @meth('replace_header')
    def replace_header(interp, self, a, kw):
        h = headers_of(self)
        n, v = hname(a[0]), force(a[1])
        i = h.find(n.lower())
        if i is None: ops.raise_(KeyError, n.lower())
        x = h.items[i]
        h.set(h.items[:i] + (Item(x.name, v, x.lname),) + h.items[i + 1:])
        return None

    @meth('get_all')
    def get_all(interp, self, a, kw):
        vs, exact = headers_of(self).values(hname(a[0]).lower())
        if not exact: raise Unsupported('all headers of a name')
        return PyList(vs) if vs else (a[1] if len(a) > 1 else kw.get('failobj'))

    @meth('add_header')
    def add_header(interp, self, a, kw):
        if kw: raise Unsupported('add_header with parameters')
        return setitem(interp, self, a, {})

    @meth('get_payload')
    def get_payload(interp, self, a, kw): return self.fields['_payload']


class Opaque(Ext):
    """Something the code under proof does not look at."""
    pytype = object


FRAME = ('_unixfrom', '_payload', '_charset', 'preamble', 'epilogue', 'defects', '_default_type', 'policy')


def sym_message(vc, items, messageid=None, c=None, t=None, cls=Message):
    add_contracts(vc)
    m = Obj(cls, 'message', messageid=messageid, c=c, t=t, _headers=Headers(items))
    for f in FRAME: m.fields[f] = Opaque(f)
    m.start = dict(m.fields)
    m.start_items = m.fields['_headers'].items
    return m


def frame(vc, m, but=()):
    """Nothing of the message has changed except the given fields and the headers."""
    for f in sorted(set(m.start) | set(m.fields)):
        if f in but or f == '_headers': continue
        a, b = m.start.get(f, '(missing)'), m.fields.get(f, '(missing)')
        vc.prove('%s stays' % f.strip('_'), same_value(a, b))


def same_value(a, b):
    a, b = force(a), force(b)
    if a is b: return True
    if isinstance(a, (Ext, Obj)) or isinstance(b, (Ext, Obj)): return False
    if a is None or b is None: return False
    if family(a) is not family(b): return False
    r = ops.eq(a, b)
    return ops.as_term_bool(r)


def family(v):
    if isinstance(v, (bool, SBool)): return bool
    if isinstance(v, (int, SInt)): return int
    if isinstance(v, (float, SReal)): return float
    if isinstance(v, (str, bytes, SStr, SText)): return ops.kindof(v)
    return type(v)


def same_items(a, b):
    """Formula: the same headers in the same order."""
    a, b = list(a), list(b)
    if len(a) != len(b): return False
    out = []
    for x, y in zip(a, b):
        if isinstance(x, Stretch) or isinstance(y, Stretch):
            if not (isinstance(x, Stretch) and isinstance(y, Stretch) and x.label == y.label): return False
            continue
        if x.lname != y.lname: return False
        for u, v in ((x.name, y.name), (x.value, y.value)):
            r = same_value(u, v)
            if r is False: return False
            if r is not True: out.append(r)
    return z3.And(out) if out else True


def text(name): return SStr(z3.String(name), str)


# the numbers and words of the headers, as uninterpreted texts
fixed = z3.Function('fixed', I, z3.RealSort(), S)       # '%.*f' % (digits, x)
reprof = z3.Function('reprof', Tok, S)                  # repr(token)
reprtext = z3.Function('reprtext', S, S)                # repr(text)
rfc2047 = z3.Function('rfc2047', Tok, S)                # Header(token, charset='utf-8').encode()
def istext(t): return z3.Not(isbytes(t))                # the token is a str


def repr_of(v):
    v = force(v)
    if isinstance(v, STok): return reprof(v.t)
    if isinstance(v, SStr) and v.kind is str: return reprtext(v.t)
    return None


def fixed_of(digits, x):
    x = force(x)
    if not isinstance(x, (SReal, SInt, float, int)) or isinstance(x, bool): return None
    return fixed(digits, ops.toreal(x))


def precision(spec):
    """The digits of a format specification '.Nf'."""
    import re
    if isinstance(spec, str):
        m = re.fullmatch(r'\.(\d+)f', spec)
        return z3.IntVal(int(m.group(1))) if m else None
    if not isinstance(spec, SStr): return None
    t = z3.simplify(spec.t)
    d = [x for x in subterms(t) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_INT_TO_STR]
    for x in d:
        n = x.arg(0)
        for y in (n, z3.simplify(-n)):
            if z3.simplify(z3.Concat(z3.StringVal('.'), ops.int_to_str(y), z3.StringVal('f'))).eq(t): return y


def subterms(t):
    out = [t]
    for c in t.children(): out += subterms(c)
    return out


def text_hooks(vc):
    """The texts of numbers and words."""
    import re
    cx = vc.cx
    def format(interp, v, conv, spec):
        if conv == 'r' and spec == '':
            r = repr_of(v)
            return None if r is None else SStr(r, str)
        n = precision(spec)
        if n is not None and conv == '':
            r = fixed_of(n, v)
            return None if r is None else SStr(r, str)
    def percent(interp, fmt, arg):
        args = list(arg) if isinstance(arg, tuple) else [arg]
        parts, pos = [], 0
        for m in re.finditer(r'%(?:\.(\*|\d+))?([%srdf])', fmt):
            if '%' in fmt[pos:m.start()]: return None
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            prec, kind = m.groups()
            if kind == '%':
                parts.append('%')
                continue
            need = 2 if prec == '*' else 1
            if len(args) < need: ops.raise_(TypeError, 'not enough arguments for format string')
            if prec == '*': d = ops.intterm(force(args.pop(0)))
            elif prec is not None: d = z3.IntVal(int(prec))
            else: d = z3.IntVal(6)
            v = force(args.pop(0))
            if kind == 'f':
                if isinstance(v, (str, bytes, SStr, STok, Obj, Ext)) or v is None: ops.raise_(TypeError, 'must be real number')
                r = fixed_of(d, v)
                if r is None: return None
                parts.append(SStr(r, str))
            elif kind == 'd' and isinstance(v, SReal):
                parts.append(SStr(ops.int_to_str(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))), str))
            else:
                p = models.format_value(interp, v, 'r' if kind == 'r' else '', '')
                parts.append(p)
        if '%' in fmt[pos:]: return None
        if args: ops.raise_(TypeError, 'not all arguments converted')
        parts.append(fmt[pos:])
        return models.concat(parts)
    cx.ghost['format'] = format
    cx.ghost['percent'] = percent
    def header(interp, cls, a, kw):
        w = force(a[0])
        cs = kw.get('charset', a[1] if len(a) > 1 else None)
        class Encoded(Ext):
            pytype = Header
            def m_encode(self, interp, a, kw):
                if not isinstance(w, STok) or cs != 'utf-8': raise Unsupported('Header(%r, %r)' % (w, cs))
                if not core.cx().branch(istext(w.t)): ops.raise_(TypeError, 'not a text')
                return SStr(rfc2047(w.t), str)
        return Encoded('encoded')
    vc.i.classmodels[(Header, '__new__')] = ModelMethod(header)


def log10_model(vc):
    f = z3.Function('log10', z3.RealSort(), z3.RealSort())
    def h(interp, a, kw):
        x = ops.toreal(force(a[0]))
        if not core.cx().branch(x > 0): ops.raise_(ValueError, 'math domain error')
        return SReal(f(x))
    vc.i.models[id(math.log10)] = h


SB = ('x-spambayes-classification', 'x-spambayes-mailid', 'x-spambayes-classification-id', 'x-spambayes-level',
      'x-spambayes-evidence', 'x-spambayes-spam-probability', 'x-spambayes-trained')
TO_NOTES = ['%s@spambayes.invalid,' % c for c in ('ham', 'spam', 'unsure')]
SUBJECT_NOTES = ['%s,' % c for c in ('ham', 'spam', 'unsure')]


class Wanted(Ext):
    """A collection of classifications."""
    pytype = tuple
    def __init__(self, name):
        super().__init__('wanted')
        self.b = {c: z3.Bool('%s_%s' % (name, c.name)) for c in Classification}
    def m___contains__(self, interp, a, kw):
        x = force(a[0])
        if isinstance(x, SAlt): return SBool(z3.Or([z3.And(g, self.b[w]) for g, w in x.alts if w in self.b]))
        return SBool(self.b[x]) if x in self.b else False
    def m___len__(self, interp, a, kw): return SInt(z3.Sum([z3.If(b, 1, 0) for b in self.b.values()]))
    def m___bool__(self, interp, a, kw): return SBool(z3.Or(list(self.b.values())))
    def m___iter__(self, interp, a, kw): return tuple(c for c in self.b if core.cx().branch(self.b[c]))


def letters(first, has_to=True, has_subject=True, sb=()):
    """A message with other headers around To and Subject, and no result headers."""
    t, s = text('to'), text('subject')
    to, sub = Item(text('name_to'), t, 'to'), Item(text('name_subject'), s, 'subject')
    order = [x for x in ((to, sub) if first == 'to' else (sub, to)) if (x is to and has_to) or (x is sub and has_subject)]
    names = set(SB) | {'to', 'subject'}
    items = []
    for i, x in enumerate(order):
        items += [Stretch('other headers %d' % i, names), x]
        names = names - {x.lname}
    items.append(Stretch('last headers', names))
    return items, t, s


def starts(v, notes): return z3.Or([z3.PrefixOf(z3.StringVal(n), v.t) for n in notes])
