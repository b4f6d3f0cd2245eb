"""Every message can be tokenized into bytes tokens.

Proved: for every message no exception leaves the tokenizer, every token is bytes, no method that changes a message is called, and nothing makes a second call with an equal message different (determined). The texts of a
message are values of which the type, the length and the truth are known, nothing else; what the email package may answer or raise is the contract of
its methods, and what a match may hold is read from the pattern of the current source.
"""
import ast, binascii, sys, types, warnings
import email
import email.errors, email.header, email.message, email.utils
import io, itertools, os, random, re, time
from re import _parser
from .lib import *
from .. import models
from ..ops import raise_
from ..interp import Env, GenObj

from sbclassifier import message, strippers, tokenizer
from sbclassifier.strippers import Stripper, URLStripper, UUencodeStripper, crack_content_xyz, crack_filename
from sbclassifier.tokenizer import Tokenizer, tokenize

ASSUMPTIONS = [
    'a text a message is made from has no lone surrogates (bytes may be any)',
    'the options of the modules have their defaults (tokenizer.py, strippers.py); the two header options of a call are arbitrary',
    'that two calls with equal arguments give equal tokens is concluded from what is proved of one call: it changes nothing that was there before, it does not observe the order of a set of more than one element, '
    'and it calls nothing but functions of their arguments (any other call leaves the obligation unproved); the methods of equal messages, re and the codecs answer equally',
    'tokenize_word and Tokenizer.tokenize_text give tokens that are bytes or str and raise nothing (proved by C28)',
    'Stripper.analyze gives a text of the same kind and the tokens of its marks, and raises nothing (proved by C26)',
]
TRUSTED = [
    'email.message: get_content_type and get_content_maintype give str; get_param, get_charsets and get_filename give None, str or an RFC 2231 tuple and may raise TypeError or ValueError; '
    'get gives None, a str or a Header; get_payload may raise anything, and gives None, bytes (decoded) or str (not decoded); walk gives the parts',
    'email.header.decode_header gives pairs (str or bytes, None or str) or raises HeaderParseError; email.utils.getaddresses gives pairs of str; collapse_rfc2231_value gives a str or raises ValueError',
    're: a group that no alternative and no optional part can leave out holds a text of the kind of the pattern',
    'bytes.decode with an unknown codec raises LookupError, and otherwise ValueError at most; int(text) raises ValueError at most',
]
NOTE = ('Proved for all messages: no exception, bytes tokens, no change of the message (types and exceptions, by contract of every function called). '
        'That equal messages give equal tokens in the same order follows from frame obligations: no change of what outlives the call, no order of a set observed, no call of what is not a function of its arguments.')


def T(kind=str): return SText(kind)


class AnyError(Exception):
    """Some exception."""


def may(*classes):
    """One of these may be raised here."""
    cx = core.cx()
    for c in classes:
        if cx.choose(2) == 1: raise_(c, 'some')


def pick(*values):
    cx = core.cx()
    for v in values[:-1]:
        if cx.choose(2) == 0: return v() if callable(v) else v
    v = values[-1]
    return v() if callable(v) else v


class Same(Ext):
    """All are alike."""
    def __init__(self): super().__init__(type(self).__name__)
    def __eq__(self, other): return type(other) is type(self)
    def __hash__(self): return 0


class HeaderValue(Same):
    """A str or a Header, which has none of the methods of str."""
    def m___str__(self, interp, a, kw): return T()
    def __getattr__(self, name):
        if not name.startswith('m_') or not hasattr(str, name[2:]): raise AttributeError(name)
        def call(interp, a, kw):
            may(AttributeError)
            return models.call_builtin(interp, T(), name[2:], a, kw)
        return call


def some(elem, least=0, site='some'):
    cx = core.cx()
    n = cx.fresh('n_' + site, I)
    cx.assume(n >= least)
    return PyList(n=n, get=elem, site=site)


def one_of(*values):
    """An element that may be any of these."""
    def elem(j):
        cx = core.cx()
        alts = []
        for v in values[:-1]: alts.append((cx.fresh('is', B), v() if callable(v) else v))
        v = values[-1]
        v = v() if callable(v) else v
        done, out = z3.BoolVal(True), []
        for g, w in alts:
            out.append((z3.And(done, g), w))
            done = z3.And(done, z3.Not(g))
        return SAlt(out + [(done, v)])
    return elem


CHANGES = ('add_header', 'replace_header', 'set_param', 'del_param', 'set_type', 'set_payload', 'set_charset', 'set_boundary', 'attach', 'set_default_type', '__setitem__', '__delitem__', 'set_raw',
           'set_unixfrom', 'set_id', 'remember_trained', 'set_classification', 'set_id_from_payload', 'add_notations', 'del_notations', 'add_sb_headers', 'del_sb_headers', 'delNotations', '__setattr__')


class Msg(Same):
    vc = None
    def changed(self, *a):
        Msg.vc.prove('the message is not changed', z3.BoolVal(False))
        raise Unsupported('change of a message')
    def m_walk(self, interp, a, kw): return some(lambda j: Msg(), 1, 'parts')
    def m_get_content_type(self, interp, a, kw): return T()
    def m_get_content_maintype(self, interp, a, kw): return T()
    def m_get_content_subtype(self, interp, a, kw): return T()
    def m_get_param(self, interp, a, kw):
        may(TypeError, ValueError)
        return pick(None, T, lambda: (pick(None, T), pick(None, T), T()))
    def m_get_charsets(self, interp, a, kw):
        may(TypeError, ValueError)
        return some(one_of(None, T), 1, 'charsets')
    def m_get_content_charset(self, interp, a, kw):
        may(TypeError, ValueError)
        return pick(None, T)
    def m_get_filename(self, interp, a, kw):
        may(TypeError, ValueError)
        return pick(None, T)
    def m_get(self, interp, a, kw):
        d = force(a[1] if len(a) > 1 else kw.get('failobj'))
        return HeaderValue() if isinstance(d, str) else pick(d, HeaderValue)
    def m___getitem__(self, interp, a, kw): return pick(None, HeaderValue)
    def m_get_all(self, interp, a, kw):
        d = a[1] if len(a) > 1 else kw.get('failobj')
        return pick(lambda: force(d), lambda: some(lambda j: HeaderValue(), 1, 'values'))
    def m_keys(self, interp, a, kw): return some(lambda j: SStr(core.cx().fresh('header_name', z3.StringSort()), str), 0, 'names')
    def m_items(self, interp, a, kw): return some(lambda j: (T(), HeaderValue()), 0, 'headers')
    def m_values(self, interp, a, kw): return some(lambda j: HeaderValue(), 0, 'values')
    def m_is_multipart(self, interp, a, kw): return SBool(core.cx().fresh('multipart', B))
    def m___contains__(self, interp, a, kw): return SBool(core.cx().fresh('has header', B))
    def m_get_payload(self, interp, a, kw):
        decode = force(kw.get('decode', a[1] if len(a) > 1 else False))
        if decode: may(AnyError)
        return pick(None, lambda: T(bytes if decode else str))


for _n in CHANGES: setattr(Msg, 'm_' + _n, lambda self, interp, a, kw: self.changed())


# ---- re

def groups_of(p):
    """For every group: can it be left out, and how short can it be?"""
    out = {}
    def go(seq, optional):
        for op, arg in seq:
            n = str(op)
            if n == 'SUBPATTERN':
                if arg[0] is not None: out[arg[0]] = (optional, arg[3].getwidth()[0])
                go(arg[3], optional)
            elif n == 'BRANCH':
                for b in arg[1]: go(b, True)
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'): go(arg[2], optional or arg[0] == 0)
            elif n in ('ASSERT', 'ASSERT_NOT'): go(arg[1], True)
            elif n == 'ATOMIC_GROUP': go(arg, optional)
            elif n == 'GROUPREF_EXISTS':
                for b in arg[1:]:
                    if b: go(b, True)
    go(_parser.parse(p.pattern, p.flags & ~(re.UNICODE if isinstance(p.pattern, str) else 0)), False)
    return out


def width(p):
    """The length of the shortest match."""
    return _parser.parse(p.pattern, p.flags & ~(re.UNICODE if isinstance(p.pattern, str) else 0)).getwidth()[0]


class Match(Ext):
    def __init__(self, p, text=None, pos=0, at=False):
        """A match of p in the text from pos on; at: right there."""
        super().__init__('match')
        self.p, self.kind = p, type(p.pattern)
        self.text, self.pos, self.at, self.bounds = text, pos, at, None
        self.g, self.values = groups_of(p), {}
    def __eq__(self, other): return isinstance(other, Match) and other.p is self.p
    def __hash__(self): return hash(self.p)
    def value(self, i):
        i = force(i)
        if isinstance(i, str): i = self.p.groupindex.get(i, -1)
        if i == 0: return T(self.kind)
        if i not in self.g: raise_(IndexError, 'no such group')
        if i not in self.values:
            optional, least = self.g[i]
            v = T(self.kind)
            core.cx().assume(z3.And(ops.intterm(ops.length(v)) >= least, ops.truth(v) == (ops.intterm(ops.length(v)) > 0)))
            self.values[i] = pick(None, v) if optional else v
        return self.values[i]
    def m_group(self, interp, a, kw):
        r = tuple(self.value(i) for i in (a or [0]))
        return r[0] if len(r) == 1 else r
    def m___getitem__(self, interp, a, kw): return self.value(a[0])
    def m_groups(self, interp, a, kw): return tuple(self.value(i) for i in range(1, self.p.groups + 1))
    def span(self, i=0):
        cx = core.cx()
        if i == 0 and self.bounds is not None: return self.bounds
        lo, hi = cx.fresh('start', I), cx.fresh('end', I)
        cx.assume(z3.And(lo >= (-1 if i else 0), hi >= lo))
        if i == 0:
            self.bounds = (SInt(lo), SInt(hi))
            cx.assume(hi - lo >= width(self.p))
            if self.text is not None:
                n = ops.intterm(ops.length(self.text))
                first = z3.If(ops.intterm(self.pos) > n, n, z3.If(ops.intterm(self.pos) < 0, z3.IntVal(0), ops.intterm(self.pos)))
                cx.assume(z3.And(lo == first if self.at else lo >= first, hi <= n))
        return SInt(lo), SInt(hi)
    def which(self, a): return force(a[0]) if a else 0
    def m_span(self, interp, a, kw): return self.span(self.which(a))
    def m_start(self, interp, a, kw): return self.span(self.which(a))[0]
    def m_end(self, interp, a, kw): return self.span(self.which(a))[1]


def pattern_call(interp, p, name, a, kw):
    kind = type(p.pattern)
    repl = force(a[0]) if name in ('sub', 'subn') else None
    text = force(a[1] if name in ('sub', 'subn') else a[0])
    if not ops.isstr(text) or ops.kindof(text) is not kind: raise_(TypeError, 'cannot use a %s pattern on %r' % (kind.__name__, text))
    if name in ('search', 'match', 'fullmatch'):
        known = len(a) < 3 and not kw
        return pick(None, lambda: Match(p, text if known else None, a[1] if len(a) > 1 else 0, name != 'search'))
    if name == 'findall':
        if p.groups < 2: return some(lambda j: T(kind), 0, 'found')
        return some(lambda j: tuple(T(kind) for _ in range(p.groups)), 0, 'found')
    if name == 'finditer': return some(lambda j: Match(p), 0, 'matches')
    if name == 'split':
        if p.groups: raise Unsupported('split with groups')
        return some(lambda j: T(kind), 1, 'split')
    if name == 'sub':
        if ops.isstr(repl):
            if ops.kindof(repl) is not kind: raise_(TypeError, 'replacement of another kind')
        elif core.cx().choose(2) == 1:
            r = force(interp.apply(repl, [Match(p)], {}))
            if not (ops.isstr(r) and ops.kindof(r) is kind): raise_(TypeError, 'replacement of another kind')
        return T(kind)
    raise Unsupported('pattern.' + name)


def native(interp, f, a, kw):
    s, n = getattr(f, '__self__', None), getattr(f, '__name__', None)
    if isinstance(s, re.Pattern): return (pattern_call(interp, s, n, a, kw),)
    if f is binascii.a2b_base64:
        may(binascii.Error)
        return (T(bytes),)
    return None


# ---- texts

SAFE = {'latin-1', 'iso-8859-1', 'iso8859-1', 'latin1'}


def str_method(interp, s, name, a, kw):
    if not isinstance(s, (SText, SStr)): 
        if name == 'join': return (joined(interp, s, a[0]),)
        return None
    kind = ops.kindof(s)
    a = [force(x) for x in a]
    texts = [x for x in a if ops.isstr(x)]
    if name == 'join': return (joined(interp, s, a[0]),)
    if name not in ('encode', 'decode') and any(ops.kindof(x) is not kind for x in texts): raise_(TypeError, 'argument of another kind')
    if name in ('split', 'rsplit'):
        given = [x for x in a[:1] if x is not None]
        return (some(lambda j: T(kind), 1 if given else 0, 'words'),)
    if name == 'splitlines': return (some(lambda j: T(kind), 0, 'lines'),)
    if name in ('encode', 'decode'):
        if kind is not (str if name == 'encode' else bytes): raise_(AttributeError, name)
        codec, errors = force(a[0] if a else kw.get('encoding', 'utf-8')), force(a[1] if len(a) > 1 else kw.get('errors', 'strict'))
        known = isinstance(codec, str)
        if not ops.isstr(codec) or ops.kindof(codec) is not str: raise_(TypeError, 'codec')
        if not known: may(LookupError, ValueError)
        elif name == 'decode' and not (codec.lower() in SAFE or codec.lower() in ('utf-8', 'utf8', 'ascii') and errors in ('replace', 'ignore', 'surrogateescape', 'backslashreplace')): may(UnicodeDecodeError)
        elif name == 'encode' and errors not in ('replace', 'ignore', 'backslashreplace'): may(UnicodeEncodeError)
        return (T(bytes if name == 'encode' else str),)
    if name in ('startswith', 'endswith') and len(a) == 1: return (SBool(core.cx().fresh('affix', B)),)
    if name in ('count', 'find', 'rfind'):
        n = core.cx().fresh(name, I)
        core.cx().assume(n >= (0 if name == 'count' else -1))
        return (SInt(n),)
    if name in ('lower', 'upper') and isinstance(s, SStr): return (SStr(core.cx().fresh(name, z3.StringSort()), kind),)
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'translate', 'title', 'capitalize', 'casefold'): return (T(kind),)
    return None


def joined(interp, s, x):
    kind = ops.kindof(s)
    l = models.to_pylist(interp, x)
    if l.symbolic:
        j = core.cx().fresh('any', I)
        core.cx().assume(z3.And(j >= 0, j < l.n))
        v = l._get(j)
        for _, w in (v.alts if isinstance(v, SAlt) else [(None, v)]):
            if not ops.isstr(w) or ops.kindof(w) is not kind: raise_(TypeError, 'sequence item')
    elif any(not ops.isstr(force(v)) or ops.kindof(force(v)) is not kind for v in l.items): raise_(TypeError, 'sequence item')
    return T(kind)


def to_bytes(interp, a, kw):
    v = force(a[0]) if a else b''
    enc = [force(x) for x in a[1:]] + [force(x) for x in kw.values()]
    if ops.isstr(v) and ops.kindof(v) is str:
        if not enc: raise_(TypeError, 'string argument without an encoding')
        if enc[-1] not in ('backslashreplace', 'replace', 'ignore', 'surrogatepass'): may(UnicodeEncodeError)
        return T(bytes)
    if enc: raise_(TypeError, 'encoding without a string argument')
    if not ops.isstr(v): raise Unsupported('bytes of %r' % (v,))
    return T(bytes)


def to_int(interp, v, a, kw):
    if not ops.isstr(v): return None
    may(ValueError)
    return SInt(core.cx().fresh('int', I))


# ---- contracts and targets

def tokens(n=None):
    return some(one_of(T, lambda: T(bytes)), 0, 'tokens')


NOT_DETERMINED = [id, hash, dir, vars, repr, time.time, time.time_ns, time.monotonic, time.perf_counter, time.localtime, time.gmtime, time.ctime, time.asctime, time.strftime, random.random, random.randrange,
                  random.randint, random.choice, random.shuffle, random.sample, os.urandom, os.getpid, os.getenv, os.listdir, open, input]


def determined(vc):
    """From here on: nothing that was there before is changed, the order of a set is not observed, and nothing else is asked that may answer differently the next time.

    Every other step of Python is a function of the values it is given, so that two calls with equal arguments give equal results.
    """
    g, start = vc.cx.ghost, vc.cx.clock
    outside = g['outside'] = []
    def written(o, what):
        if o.stamp <= start or any(o is x for x in outside) or any(o is x for x in g.get('wrapped', {}).values()) or isinstance(o, Env) and o.cells: raise Unsupported('change of something that outlives the call: %r' % (o,))
    def iterated(v):
        if getattr(v, 'unordered', None) is not None: vc.prove('the order of a set is not observed', v.unordered)
        elif isinstance(v, PySet) and (v.symbolic or len(v.items) > 1): raise Unsupported('the order of a set')
    g['onwrite'], g['iteration'], g['ends'] = written, iterated, True
    def no(interp, a, kw): raise Unsupported('something that is not a function of its arguments')
    for f in NOT_DETERMINED: vc.i.models[id(f)] = no


def known(vc, o):
    """An object that is there before the call, and what it holds."""
    outside = vc.cx.ghost['outside']
    outside.append(o)
    for v in o.fields.values() if isinstance(o, Obj) else o.items or () if isinstance(o, PyList) else ():
        if isinstance(v, (Obj, PyList)): known(vc, v)
    return o


def setup(vc, contracts):
    Msg.vc = vc
    cx = vc.cx
    g = cx.ghost
    g['native'], g['strmethod'], g['tobytes'], g['int'] = native, str_method, to_bytes, to_int
    g['cutfor'] = lambda n, it: isinstance(it, tuple) and len(it) > 3 and all(isinstance(x, str) for x in it)
    M = vc.i.models
    def decode_header(interp, a, kw):
        may(email.errors.HeaderParseError)
        return some(lambda j: (one_of(T, lambda: T(bytes))(j), one_of(None, T)(j)), 0, 'decoded')
    M[id(email.header.decode_header)] = decode_header
    def getaddresses(interp, a, kw): return some(lambda j: (T(), T()), 0, 'addresses')
    M[id(email.utils.getaddresses)] = getaddresses
    def collapse(interp, a, kw):
        may(ValueError)
        return T()
    M[id(email.utils.collapse_rfc2231_value)] = collapse
    def from_string(interp, a, kw): return Msg()
    M[id(email.message_from_string)] = from_string
    def chr_(interp, a, kw):
        may(ValueError, OverflowError)
        return T()
    M[id(chr)] = chr_
    def words(i, a, kw):
        w = force(a[0])
        if not ops.isstr(w): raise Unsupported('tokenize_word of %r' % (w,))
        return tokens() if ops.kindof(w) is bytes else some(lambda j: T(), 0, 'tokens')
    def in_text(i, a, kw):
        t = force(a[1])
        if not ops.isstr(t) or ops.kindof(t) is not bytes: raise Unsupported('tokenize_text of %r' % (t,))
        return tokens()
    def is_message(i, v, c):
        if isinstance(v, Msg): return issubclass(email.message.Message, c)
        if isinstance(v, HeaderValue): return issubclass(email.header.Header, c)
        return None
    g['isinstance'] = is_message
    c = {
        'words': ('sbclassifier.tokenizer:tokenize_word', words),
        'text': ('sbclassifier.tokenizer:Tokenizer.tokenize_text', in_text),
        'xyz': ('sbclassifier.strippers:crack_content_xyz', lambda i, a, kw: tokens()),
        'filename': ('sbclassifier.strippers:crack_filename', lambda i, a, kw: some(lambda j: T(), 0, 'tokens')),
        'headers': ('sbclassifier.tokenizer:Tokenizer.tokenize_headers', lambda i, a, kw: tokens()),
        'body': ('sbclassifier.tokenizer:Tokenizer.tokenize_body', lambda i, a, kw: tokens()),
        'virus': ('sbclassifier.tokenizer:find_html_virus_clues', lambda i, a, kw: some(lambda j: T(bytes), 0, 'clues')),
        'repair': ('sbclassifier.tokenizer:try_to_repair_damaged_base64', lambda i, a, kw: T(bytes)),
        'header text': ('sbclassifier.tokenizer:header_text', lambda i, a, kw: T()),
        'entity': ('sbclassifier.tokenizer:numeric_entity_replacer', lambda i, a, kw: T(bytes)),
    }
    for n in contracts:
        if n == 'analyze': continue
        key, h = c[n]
        vc.i.overrides[key] = h
    if 'analyze' in contracts:
        def analyze(i, a, kw):
            text = force(a[-1])
            if not ops.isstr(text) or ops.kindof(text) is not bytes: raise_(TypeError, 'text')
            return (T(bytes), tokens())
        vc.i.overrides['sbclassifier.strippers:Stripper.analyze'] = analyze
    def parts(n):
        def call(i, a, kw):
            l = some(lambda j: Msg(), 0, 'parts')
            if n == 'textparts':
                cx.assume(z3.Implies(ONE_TEXT, l.n <= 1))
                l.unordered = z3.Implies(ONE_TEXT, l.n <= 1)
            elif n == 'octetparts': l.unordered = l.n <= 1
            return l
        return call
    for n in ('textparts', 'octetparts', 'imageparts'): vc.i.overrides['sbclassifier.tokenizer:' + n] = parts(n)
    determined(vc)


# At most one part of the message is a text.
ONE_TEXT = z3.Bool('one_text')


def alternatives(v):
    if isinstance(v, SAlt): return [(g, w) for g, x in v.alts for g2, w in [(g, x)]]
    return [(True, v)]


def consume(vc, gen, kinds):
    """Goes through the tokens: each is of one of the kinds."""
    def check(v):
        for g, w in alternatives(v):
            if not (ops.isstr(w) and ops.kindof(w) in kinds):
                vc.prove('a token is %s' % ' or '.join(k.__name__ for k in kinds), z3.Not(g) if g is not True else z3.BoolVal(False))
            else: vc.prove('a token is %s' % ' or '.join(k.__name__ for k in kinds), z3.BoolVal(True))
    it = vc.i.drain(gen)
    if isinstance(it, GenObj):
        for v in it.gen:
            check(v)
            vc.cover('a token')
    elif isinstance(it, PyList) and not it.symbolic:
        for v in it.items: check(v)
    elif isinstance(it, PyList) or isinstance(it, SymIter) and it.kind == 'seq':
        l = models.to_pylist(vc.i, it)
        j = vc.cx.fresh('token', I)
        vc.assume(z3.And(j >= 0, j < l.n))
        check(l._get(j))
        vc.cover('a token')
    else: raise Unsupported('tokens %r' % (it,))


def target(name, f, contracts, kinds=(str, bytes), covers=('a token', 'end')):
    """f(vc) gives the tokens."""
    def run(vc):
        setup(vc, contracts)
        r, exc = vc.attempt(lambda: consume(vc, f(vc), kinds))
        vc.prove('no exception', exc is None)
        if exc is None: vc.cover('end')
    return dict(name=name, fn=run, covers=list(covers))


class Walked(Msg):
    """A message of which the kind of part j is kind(j)."""
    def m_walk(self, interp, a, kw):
        n = z3.Int('n_walked')
        core.cx().assume(n >= 1)
        return PyList(n=n, get=Part, site='walked')


class Part(Msg):
    kind = z3.Function('maintype', I, z3.StringSort())
    def __init__(self, j): super().__init__(); self.j = j
    def subst(self, pairs): return Part(z3.substitute(self.j, *pairs))
    def m_get_content_maintype(self, interp, a, kw): return SStr(self.kind(self.j), str)


def parts_of_text():
    """textparts gives no more parts than the message has texts, if it has one."""
    def run(vc):
        setup(vc, [])
        del vc.i.overrides['sbclassifier.tokenizer:textparts']
        n, only = z3.Int('n_walked'), z3.Int('only')
        vc.fact(IDX, lambda j: z3.Implies(z3.And(j >= 0, j < n, j != only), Part.kind(j) != 'text'), 'at most one text')
        def a_set(interp, a, kw):
            l = force(a[0]) if isinstance(force(a[0]), PyList) else models.to_pylist(interp, a[0])
            if l.symbolic:
                for j in (0, 1):
                    vc.cx.register_index(z3.IntVal(j))
                    l._get(z3.IntVal(j))
                    if l.srcinfo is not None: vc.cx.register_index(l.srcinfo[0](z3.IntVal(j)))
            m = vc.cx.fresh('distinct', I)
            vc.assume(z3.And(m >= 0, m <= ops.intterm(ops.length(l))))
            return PyList(n=m, get=lambda j: Msg(), site='a set')
        vc.i.models[id(set)] = a_set
        r, exc = vc.attempt(lambda: vc.call(tokenizer.textparts, Walked()))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        if not isinstance(r, PyList): raise Unsupported('size of %r' % (r,))
        vc.prove('at most one part', ops.intterm(ops.length(r)) <= 1)
        vc.cover('end')
    return dict(name='textparts', fn=run, covers=['end'])


def value(name, f, contracts, kind):
    """f(vc) gives a text of this kind."""
    def run(vc):
        setup(vc, contracts)
        r, exc = vc.attempt(lambda: f(vc))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        for g, v in alternatives(r): vc.prove('a text', z3.BoolVal(True) if ops.isstr(v) and ops.kindof(v) is kind else z3.Not(g) if g is not True else z3.BoolVal(False))
        vc.cover('end')
    return dict(name=name, fn=run, covers=['end'])


def targets(tier):
    me = lambda vc: known(vc, Obj(Tokenizer, 'tokenizer', basic_skip=PyList([re.compile(s) for s in tokenizer.BASIC_HEADER_SKIP], site='skip')))
    flag = lambda n: SBool(z3.Bool(n))
    uu = lambda vc: known(vc, Obj(UUencodeStripper, 'stripper'))
    url = lambda vc: known(vc, Obj(URLStripper, 'stripper'))
    started = lambda st: Match(st.find_start.__self__)
    all_of_body = ['text', 'virus', 'repair', 'entity', 'analyze']
    return [
        parts_of_text(),
        target('crack_filename', lambda vc: vc.call(crack_filename, T()), [], (str,)),
        target('crack_content_xyz', lambda vc: vc.call(crack_content_xyz, Msg()), ['filename']),
        target('UUencodeStripper.tokenize', lambda vc: vc.method(uu(vc), 'tokenize', started(UUencodeStripper())), ['filename']),
        target('URLStripper.tokenize', lambda vc: vc.method(url(vc), 'tokenize', started(URLStripper())), []),
        target('find_html_virus_clues', lambda vc: vc.call(tokenizer.find_html_virus_clues, T(bytes)), [], (bytes,)),
        value('numeric_entity_replacer', lambda vc: vc.call(tokenizer.numeric_entity_replacer, Match(tokenizer.numeric_entity_re)), [], bytes),
        value('try_to_repair_damaged_base64', lambda vc: vc.call(tokenizer.try_to_repair_damaged_base64, T(bytes)), [], bytes),
        value('header_text', lambda vc: vc.call(tokenizer.header_text, pick(T, lambda: T(bytes)), pick(None, T)), [], str),
        target('Tokenizer.tokenize_headers', lambda vc: vc.method(me(vc), 'tokenize_headers', Msg(), flag('basic'), flag('only')), ['words', 'xyz', 'header text']),
        target('Tokenizer.tokenize_body', lambda vc: vc.method(me(vc), 'tokenize_body', Msg()), all_of_body),
        target('Tokenizer.__call__', lambda vc: vc.method(me(vc), '__call__', Msg(), flag('basic'), flag('only')), ['headers', 'body'], (bytes,)),
        target('Tokenizer.__call__ of a text', lambda vc: vc.method(me(vc), '__call__', T()), ['headers', 'body'], (bytes,)),
    ]


# ---------------------------------------------------------------- the real code

CHARSETS = ['us-ascii', 'utf-8', 'UTF-8', 'iso-8859-1', 'latin-1', 'utf-16', 'utf-7', 'big5', 'idna', 'punycode', 'unicode_escape', 'raw_unicode_escape', 'undefined', 'zlib', 'rot13', 'base64', 'hex',
            'x-unknown', 'unknown-8bit', '', '\xe9', 'a b', 'utf-8\0', '\0', 'x' * 80, '"utf-8"', "us-ascii''x", 'cp1252', 'ansi_x3_4_1968', 'utf-8*', 'mbcs', 'koi8-r', 'utf_8_sig', 'utf-32', 'iso-2022-jp', 'hz']
CTES = ['base64', 'quoted-printable', 'x-uuencode', 'uuencode', '7bit', '8bit', 'binary', 'BASE64', 'x-unknown', '', 'base64 ', '\xe9', 'uue']
TYPES = ['text/plain', 'text/html', 'TEXT/PLAIN', 'text', 'text/', '/', '', 'image/gif', 'application/octet-stream', 'multipart/mixed', 'multipart/alternative', 'message/rfc822', 'message/delivery-status',
         'message/external-body', 'multipart/digest', 'text/x/y', 'te\xe9xt/plain', 'message/partial', 'multipart/signed', 'image/', 'text/rfc822-headers', 'text plain']
TEXTS = ['hello', ' ', '\n', '\r\n', '\t', 'a', 'ab', 'abc', 'x' * 12, 'x' * 13, 'x' * 39, 'x' * 40, 'a@b.c', 'someone@example.com', 'averylongname@somewhere.example.com', 'a@b@c.dddddddddddd', '@', 'thirteen.chars@',
         'http://a.b/c?d=e', 'https://', 'http://www.x.com:8080/%41%zz/', 'ftp://x', 'http://a', 'http:///..//?!', 'http://[::1]/x', 'HTTP://USER:PW@1.2.3.4/', '<style>', '</style>', '<!--', '-->', '<comment', '</comment>',
         '<noframes>', '</noframes>', 'begin 644 a.exe\n', 'begin 644 \xe9.exe\n', 'M@@@\n', 'end\n', '&nbsp;', '<br>', '<p>', '<a href="x">', '<', '>', '&#65;', '&#0;', '&#55296;', '&#1114112;', '&#99999999999999999999;',
         '&#;', '&#x41;', '<script', '</iframe', ' src=cid:', 'src="cid:', ' height=0', " width='0", '\xe9', '\xff\xfe', '\x80' * 15, '\u20ac', '\u20ac' * 14, '\U0001f600', '\0', '\x0b', '\x85', '\u2028', '\ud800', '\udce9',
         'SGVsbG8=\n', 'SGVsbG8', '=\n', '====', '!!!!', 'SGVs\nbG8gd29ybGQ=\ntrailing text\n', '=E9', '=\n', '=zz', '$100.00', '10%', '!!!', "it's", '()', '...', '\\', "'", '"', ';', ',', ':', '\xad', 'a.b.c.d', '1.2.3.4',
         '(tag\xe9)', '=?utf-8?q?x?=', '\u0130', '\ufb01', '\u01c5']
ENCODED = ['=?%s?q?caf=E9?=', '=?%s?b?Y2Fm6Q==?=', '=?%s?b?Y2F?=', '=?%s?b?!?=', '=?%s?q?=zz?=', '=?%s?x?abc?=', '=?%s?b??=', '=?%s?q?=FF=FE=D8=00?=', '=?%s?Q?a_b=?=', '=?%s?B?/////w==?=', '=?%s?b?YQ=?=', '=?%s?b?Y2Fm\xe9\xe9\xe9?=', '=?%s?b?\u20acaaa?=', '=?%s?q?\u20ac_x?=']
ADDR = ['a@b.c', 'A B <a@b.c>', '"q, r" <x@y>', '<>', 'nobody', ',', '<a@b@c>', '(comment)', 'group: a@b, c@d;', '=?%s?q?n=E9?= <a@b>', '\xe9 <\xe9@\xe9>', '"', '<a@b', 'a@b, c@d', ';', ':', '@', '=?%s?b?YQ?= <x@y>', '(', '\\', '""@x', '=?%s?b?Y2Fm\xe9\xe9\xe9?= <a@b>', '"=?%s?b?Y\u20acFm?=" <a@b>']
NAMES = ['Subject', 'From', 'To', 'Cc', 'Sender', 'Reply-To', 'X-Mailer', 'Message-ID', 'Received', 'Date', 'X-Foo', 'Content-Disposition', 'subject', 'MIME-Version', 'x-\xe9', 'Organization', 'Return-Path', 'Errors-To',
         'X' * 50, 'Content-Type', 'Nntp-Posting-Host', 'Content-Transfer-Encoding', 'TO']


def words(rng, n): return ''.join(rng.choice(TEXTS) if rng.random() < .85 else chr(rng.randrange(256)) for _ in range(rng.randint(0, n)))


def encoded(rng): return rng.choice(ENCODED) % rng.choice(CHARSETS)


def param(rng):
    v = rng.choice([rng.choice(CHARSETS), words(rng, 3), "%s''%%E9%%ff" % rng.choice(CHARSETS), "%s'en'x" % rng.choice(CHARSETS), encoded(rng)])
    q = rng.choice(['%s', '"%s"', "'%s'", '"%s'])
    return '%s%s%s' % (rng.choice(['charset', 'name', 'filename', 'type', 'boundary', 'CHARSET', 'x']), rng.choice(['=', '*=', '*0=', '*0*=', '*1=', ' = ', '']), q % v)


def header(rng, name=None):
    name = name or rng.choice(NAMES)
    l = name.lower()
    if l in ('from', 'to', 'cc', 'sender', 'reply-to'):
        v = ', '.join((lambda a: a % rng.choice(CHARSETS) if '%s' in a else a)(rng.choice(ADDR)) for _ in range(rng.randint(0, 4)))
    elif l == 'content-type': v = '; '.join([rng.choice(TYPES)] + [param(rng) for _ in range(rng.randint(0, 3))])
    elif l == 'content-transfer-encoding': v = rng.choice(CTES)
    elif l == 'content-disposition': v = '; '.join([rng.choice(['attachment', 'inline', '', 'x\xe9'])] + [param(rng) for _ in range(rng.randint(0, 3))])
    elif l == 'message-id': v = rng.choice(['<a@b>', '<a@\xe9>', 'x', '', '<@>', ' <a@b c> '])
    elif l == 'received': v = rng.choice(['from mail.example.com (1.2.3.4) by x', 'from \xe9', '', 'from [1.2.3.4]'])
    else: v = ' '.join(rng.choice([encoded(rng), words(rng, 3)]) for _ in range(rng.randint(0, 3)))
    fold = rng.choice(['', '', '', '\n ', '\n\t'])
    return '%s:%s%s%s\n' % (name, rng.choice([' ', '', '  ']), fold, v.replace('\n', rng.choice([' ', '\n '])))


def part(rng, depth):
    h = ''.join(header(rng) for _ in range(rng.randint(0, 3)))
    if rng.random() < .7: h += header(rng, 'Content-Type')
    if rng.random() < .5: h += header(rng, 'Content-Transfer-Encoding')
    if rng.random() < .3: h += header(rng, 'Content-Disposition')
    if depth and rng.random() < .4:
        b = rng.choice(['XX', 'Y', 'b c'])
        h += 'Content-Type: multipart/%s; boundary="%s"\n' % (rng.choice(['mixed', 'alternative', 'digest']), b)
        body = words(rng, 2) + ''.join('\n--%s\n%s' % (b, part(rng, depth - 1)) for _ in range(rng.randint(0, 3))) + rng.choice(['\n--%s--\n' % b, '', '\n--%s' % b])
    elif depth and rng.random() < .15:
        h += 'Content-Type: message/rfc822\n'
        body = part(rng, depth - 1)
    else: body = words(rng, 14)
    return h + rng.choice(['\n', '\n', '\n', '\r\n', '']) + body


def cases(rng):
    while True:
        r = rng.random()
        if r < .1: src = bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))
        else:
            src = part(rng, rng.choice([0, 0, 0, 1, 2]))
            if rng.random() < .7: src = src.encode(*rng.choice([('utf-8', 'surrogatepass'), ('utf-8', 'replace'), ('latin-1', 'replace'), ('latin-1', 'backslashreplace')]))
            else: src = ''.join(c for c in src if not '\ud800' <= c <= '\udfff')
            if isinstance(src, bytes) and rng.random() < .2:
                b = bytearray(src)
                for _ in range(rng.randint(1, 4)):
                    if b: b[rng.randrange(len(b))] = rng.randrange(256)
                src = bytes(b)
        o = rng.random()
        yield dict(src=src, own=rng.random() < .6, basic=o < .4, only=o < .2 or o > .9, direct=rng.random() < .2)


def make(case):
    s = case['src']
    if isinstance(s, bytes): return (message.from_bytes if case['own'] else email.message_from_bytes)(s)
    return (message.from_string if case['own'] else email.message_from_string)(s)


def state(m):
    p = m._payload
    return (type(m), [(k, str(v), type(v)) for k, v in m._headers], [state(x) for x in p] if isinstance(p, list) else p, m.preamble, m.epilogue, m._unixfrom, str(m._charset), m._default_type,
            sorted((k, repr(v)) for k, v in m.__dict__.items() if k not in ('_headers', '_payload', 'preamble', 'epilogue', '_unixfrom', '_charset', '_default_type', 'defects', 'policy')))


class Backwards(set):
    """A set with another order: for texts it differs from one run of Python to the next."""
    def __iter__(self): return reversed(list(set.__iter__(self)))
    def pop(self):
        x = next(iter(self))
        self.remove(x)
        return x


class FrozenBackwards(frozenset):
    def __iter__(self): return reversed(list(frozenset.__iter__(self)))


class Displays(ast.NodeTransformer):
    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [ast.Tuple(n.elts, ast.Load())], []), n)
    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], []), n)


def backwards(made=[]):
    """The tokenizer of the current source, with sets that have another order."""
    if not made:
        saved = {}
        try:
            for mod in (strippers, tokenizer):
                with open(mod.__file__, encoding='utf-8') as f: tree = Displays().visit(ast.parse(f.read()))
                new = types.ModuleType(mod.__name__)
                new.__dict__.update(__file__=mod.__file__, __package__=mod.__package__, set=Backwards, frozenset=FrozenBackwards)
                saved[mod.__name__] = sys.modules.get(mod.__name__)
                sys.modules[mod.__name__] = new
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    exec(compile(ast.fix_missing_locations(tree), mod.__file__, 'exec'), new.__dict__)
            made.append(new)
        except Exception: made.append(None)
        finally: sys.modules.update(saved)
    return made[0]


def run_case(case):
    try: m, same = make(case), make(case)
    except Exception: return None
    args = (case['basic'], case['only'])
    before = state(m)
    what = 'tokenize(%.300r, %r, %r)' % (case['src'], *args)
    try: toks = list(tokenize(m, *args))
    except Exception as e: return '%s raised %r' % (what, e)
    for t in toks:
        if type(t) is not bytes: return '%s has the token %r' % (what, t)
    if state(m) != before: return '%s changed the message' % what
    several = sum(p.get_content_maintype() == 'text' for p in m.walk()) > 1
    for other, name in ((same, 'an equal message'), (m, 'the message again')):
        try: again = list(Tokenizer()(other, *args))
        except Exception as e: return '%s of %s raised %r' % (what, name, e)
        if sorted(again) != sorted(toks): return '%s of %s gives other tokens' % (what, name)
        if not several and again != toks: return '%s of %s gives another order' % (what, name)
    other = backwards()
    if other is not None and not several:
        try: again = list(other.Tokenizer()(same, *args))
        except Exception as e: return '%s raised %r with sets of another order' % (what, e)
        if again != toks: return '%s gives other tokens, or another order, if sets have another order, as they do in another run of Python' % what
    if case['direct'] and isinstance(case['src'], str):
        try: again = list(tokenize(case['src'], *args))
        except Exception as e: return '%s of the text raised %r' % (what, e)
        if sorted(again) != sorted(toks): return '%s of the text gives other tokens' % what
    return None
