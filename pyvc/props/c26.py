"""Stripping removes whole sections and keeps all other text."""
from .lib import *
import re
from re import _parser
from .. import models

from sbclassifier import strippers, tokenizer
from sbclassifier.strippers import Stripper, UUencodeStripper, URLStripper
from sbclassifier.classifiers import slurping
from sbclassifier.classifiers.slurping import SlurpingURLStripper

ASSUMPTIONS = [
    'find_start(text, i) and find_end(text, i) return None or a match whose span lies between i and the end of the text and depends on text and i only '
    '(what search of a compiled pattern does; the patterns themselves say what the marks are)',
    'a section is not empty: a start mark and its end mark that are both empty at the same place would be found again and again (proved of the strippers of the tokenizer, from their patterns)',
    'tokenize(match) returns a list that depends on the match only (URLs, uuencode: C27)',
]
TRUSTED = ['bytes.join joins the elements with the separator between them']

S = z3.StringSort()


class Scan:
    """The marks of a text, by the position the search starts from."""
    def __init__(self, vc, kind):
        self.kind = kind
        self.text = z3.String('text')
        self.sep = z3.String('separator')
        self.L = z3.Length(self.text)
        f = lambda name, *s: z3.Function(name, *s)
        self.hs, self.st, self.en = f('start_found', I, B), f('start_begin', I, I), f('start_end', I, I)
        self.he, self.eb, self.ee = f('end_found', I, B), f('end_begin', I, I), f('end_end', I, I)
        self.nt, self.tk = f('tokens_of', I, I), f('token_of', I, I, Tok)
        self.P = f('section', I, I)              # where the search for start mark k begins
        self.TO, self.TK = f('tokens_before', I, I), f('token', I, Tok)
        self.J = f('text_before', I, S)          # what is kept before P(k), a separator after each piece
        self.N = z3.Int('sections')              # the whole sections
        self.mk = {True: f('start_match', I, Tok), False: f('end_match', I, Tok)}
        self.at = {True: f('start_match_at', Tok, I), False: f('end_match_at', Tok, I)}
        self.is_start = f('is_start_match', Tok, B)
        cx = vc.cx
        from ..ops import truthy
        self.truthy = truthy
        cx.assume(z3.And(self.N >= 0, self.P(0) == 0, self.TO(0) == 0, self.J(0) == z3.StringVal('')))
        def step(k):
            p = self.P(k)
            return z3.Implies(k >= 0, z3.And(
                p >= 0, p <= self.L, *self.marks(p),
                z3.Implies(k < self.N, z3.And(self.hs(p), self.he(self.en(p)), self.P(k + 1) == self.ee(self.en(p)),
                                              self.J(k + 1) == z3.Concat(self.J(k), self.piece(p, self.st(p)), self.sep))),
                z3.Implies(k == self.N, z3.Not(z3.And(self.hs(p), self.he(self.en(p))))),
                self.TO(k) >= 0, self.TO(k + 1) == self.TO(k) + z3.If(self.hs(p), self.nt(p), 0)))
        cx.add_fact(IDX, step, 'the sections of the text')
        cx.add_fact((IDX, IDX), lambda k, j: z3.Implies(z3.And(k >= 0, k <= self.N, self.hs(self.P(k)), self.TO(k) <= j, j < self.TO(k) + self.nt(self.P(k))),
                                                        self.TK(j) == self.tk(self.P(k), j - self.TO(k))), 'the tokens of the text')
        cx.register_index(self.N)

    def marks(self, p):
        e = self.en(p)
        return [z3.Implies(self.hs(p), z3.And(p <= self.st(p), self.st(p) <= e, e <= self.L)), self.nt(p) >= 0,
                z3.Implies(z3.And(self.hs(p), self.he(e)), z3.And(e <= self.eb(e), self.eb(e) <= self.ee(e), self.ee(e) <= self.L, p < self.ee(e)))]

    def piece(self, a, b): return z3.SubString(self.text, a, b - a)

    def find(self, start):
        def search(interp, a, kw):
            t, i = force(a[0]), force(a[1] if len(a) > 1 else kw.get('pos', 0))
            if not isinstance(t, SStr) or not t.t.eq(self.text): raise Unsupported('search in a part of the text')
            p = ops.intterm(i)
            cc = core.cx()
            if not cc.branch(z3.And(p >= 0, p <= self.L)):       # a search outside the text starts at its nearest end
                p = z3.If(p < 0, z3.IntVal(0), self.L)
            has = self.hs(p) if start else self.he(p)
            lo, hi = (self.st(p), self.en(p)) if start else (self.eb(p), self.ee(p))
            cc.assume(z3.Implies(has, z3.And(p <= lo, lo <= hi, hi <= self.L)))
            for f in self.marks(p) if start else (): cc.assume(f)
            if not cc.branch(has): return None
            m = self.mk[start](p)
            cc.assume(z3.And(self.at[start](m) == p, self.truthy(m), self.is_start(m) == start))
            return STok(m)
        return search

    def method(self, interp, m, name, a, kw):
        cc = core.cx()
        if name not in ('span', 'start', 'end') or a and force(a[0]) != 0: return None
        if cc.branch(self.is_start(m.t)):
            p = self.at[True](m.t)
            lo, hi = self.st(p), self.en(p)
        else:
            p = self.at[False](m.t)
            lo, hi = self.eb(p), self.ee(p)
        lo, hi = SInt(lo), SInt(hi)
        return ({'span': (lo, hi), 'start': lo, 'end': hi}[name],)

    def tokenize(self, interp, a, kw):
        m = force(a[-1])
        if not isinstance(m, STok) or not core.cx().branch(self.is_start(m.t)): raise Unsupported('tokens of %r' % (m,))
        p = self.at[True](m.t)
        core.cx().assume(self.nt(p) >= 0)
        return PyList(n=self.nt(p), get=lambda r: STok(self.tk(p, r)), site='tokens')

    def kept(self):
        """The texts that may be returned."""
        p = self.P(self.N)
        whole = z3.Concat(self.J(self.N), self.piece(p, self.L))
        split = z3.Concat(self.J(self.N), self.piece(p, self.st(p)), self.sep, self.piece(self.st(p), self.L))
        return [whole], [whole, split]


class Call(Ext):
    def __init__(self, f, name):
        super().__init__(name)
        self.f = f
    def m___call__(self, interp, a, kw): return self.f(interp, a, kw)


def stripper(cls, kind):
    def run(vc):
        cx = vc.cx
        s = Scan(vc, kind)
        cx.ghost['tokmethod'] = s.method
        cx.ghost['ends'] = True
        for c in (Stripper, UUencodeStripper, URLStripper, SlurpingURLStripper):
            vc.i.overrides['%s:%s.tokenize' % (c.__module__, c.__name__)] = s.tokenize
        me = Obj(cls, 'stripper', find_start=Call(s.find(True), 'find_start'), find_end=Call(s.find(False), 'find_end'), separator=SStr(s.sep, kind))
        def inv(loop):
            out = []
            if loop.kind not in ('while', 'seq'): return out
            main = loop.kind == 'while' or loop.it.n is None
            ks = [('', loop.k)] if main else [('of %s' % k.decl().name(), k) for k in [l.k for l in cx.ghost.get('loops', []) if l is not loop and l.kind == 'while'][-1:]]
            inner = [] if main else [loop.k]
            for nm, k in ks:
                out.append(('sections so far %s' % nm, k <= s.N))
                for o, what, v in loop.locals():
                    if isinstance(v, SAlt): continue
                    v = force(v)
                    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                        out.append(('%s is the place %s' % (what, nm), ops.intterm(v) == s.P(k)))
                    if isinstance(v, STok):
                        out.append(('%s is the match %s' % (what, nm), z3.And(s.hs(s.P(k)), v.t == s.mk[True](s.P(k)))))
                    if isinstance(v, (str, bytes, SStr)):
                        t = ops.strterm(v)
                        out.append(('%s is the text %s' % (what, nm), t == s.J(k)))
                for oi, (o, what, shape) in enumerate(loop.objects()):
                    if not isinstance(o, PyList): continue
                    n = o.length()
                    g = ops.snapshot_list(o)
                    def text_at(j, g=g):
                        v = g(j)
                        return ops.strterm(v) if isinstance(v, (str, bytes, SStr)) else None
                    def tok_at(j, g=g):
                        v = g(j)
                        return v.t if isinstance(v, STok) else None
                    nm2 = 'list %d %s' % (oi, nm)
                    empty = not o.symbolic and not o.items
                    out.append(('%s: pieces' % nm2, n == k))
                    if empty or text_at(z3.Int('probe')) is not None:
                        out.append(('%s: each piece' % nm2, IDX, lambda j, f=text_at, n=n, empty=empty: z3.BoolVal(True) if empty else z3.Implies(z3.And(j >= 0, j < n), f(j) == s.piece(s.P(j), s.st(s.P(j))))))
                    for x in ([z3.IntVal(0)] + inner):
                        out.append(('%s: tokens %s' % (nm2, x), n == s.TO(k) + x))
                    if empty or tok_at(z3.Int('probe')) is not None:
                        out.append(('%s: each token' % nm2, IDX, lambda j, f=tok_at, n=n, empty=empty: z3.BoolVal(True) if empty else z3.Implies(z3.And(j >= 0, j < n), f(j) == s.TK(j))))
            return out
        vc.invariants(inv)
        def join(interp, sep, l):
            if not ops.strterm(sep).eq(s.sep): return None
            n = l.length()
            g = ops.snapshot_list(l)
            cx.register_index(n - 1)
            cx.register_index(n - 2)
            at = lambda j: ops.strterm(force(g(j)))
            each = lambda m: (lambda j: z3.Implies(z3.And(j >= 0, j < m), at(j) == s.piece(s.P(j), s.st(s.P(j)))))
            p = s.P(s.N)
            prove = lambda q: vc.e.try_prove(q) == 'proved'
            if prove(n == s.N + 1) and prove(at(s.N) == s.piece(p, s.L)) and vc.e.try_prove(each(s.N), IDX) == 'proved':
                return SStr(z3.Concat(s.J(s.N), s.piece(p, s.L)), kind)
            if prove(n == s.N + 2) and prove(at(s.N) == s.piece(p, s.st(p))) and prove(at(s.N + 1) == s.piece(s.st(p), s.L)) and vc.e.try_prove(each(s.N), IDX) == 'proved':
                return SStr(z3.Concat(s.J(s.N), s.piece(p, s.st(p)), s.sep, s.piece(s.st(p), s.L)), kind)
            return SStr(cx.fresh('joined', S), kind)
        cx.ghost['join'] = join
        r, exc = vc.attempt(lambda: vc.method(me, 'analyze', SStr(s.text, kind)))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        if not isinstance(r, tuple) or len(r) != 2: raise Unsupported('result %r' % (r,))
        out, toks = force(r[0]), models.to_pylist(vc.i, r[1])
        if isinstance(out, (str, bytes, SStr)):
            vc.prove('text of the same kind', ops.kindof(out) is kind)
            whole, either = s.kept()
            unclosed = s.hs(s.P(s.N))
            t = ops.strterm(out)
            vc.prove('the sections are removed and the rest is kept', z3.Or(*[t == w for w in either[1:]], t == whole[0]) if cx.branch(unclosed) else t == whole[0])
            vc.cover('unclosed' if cx.branch(unclosed) else 'closed')
        else: vc.prove('a text', z3.BoolVal(False))
        total = s.TO(s.N) + z3.If(s.hs(s.P(s.N)), s.nt(s.P(s.N)), 0)
        vc.prove('as many tokens as the start marks have', toks.length() == total)
        if toks.symbolic or toks.items:
            g = ops.snapshot_list(toks)
            vc.prove('the tokens of the start marks in order', lambda j: z3.Implies(z3.And(j >= 0, j < total), force(g(j)).t == s.TK(j)), IDX)
    return dict(name='%s.analyze of %s' % (cls.__name__, kind.__name__), fn=run, covers=['unclosed', 'closed'])


def strippers_in_use():
    """name -> stripper, of those the modules make."""
    out = {}
    for mod in (tokenizer, strippers):
        for n, v in sorted(vars(mod).items()):
            s = getattr(v, '__self__', v)
            if isinstance(s, Stripper): out['%s.%s' % (mod.__name__, n)] = s
    return out


def not_empty(name, s):
    """No section of this stripper is empty."""
    def run(vc):
        widths = []
        for f in (s.find_start, s.find_end):
            p = getattr(f, '__self__', None)
            if not isinstance(p, re.Pattern) or getattr(f, '__name__', '') != 'search': raise Unsupported('marks of %s' % name)
            widths.append(_parser.parse(p.pattern, p.flags & ~(re.UNICODE if isinstance(p.pattern, str) else 0)).getwidth()[0])
        vc.prove('a section takes at least one character', z3.IntVal(sum(widths)) >= 1)
        vc.cover('end')
    return dict(name='sections of %s' % name, fn=run, covers=['end'])


def targets(tier):
    return [not_empty(n, s) for n, s in strippers_in_use().items()] + [stripper(c, bytes) for c in (Stripper, UUencodeStripper, URLStripper, SlurpingURLStripper)] + [stripper(Stripper, str)]


# ---------------------------------------------------------------- the real code

def expected(st, text, tokens):
    """Pieces kept, the rest, tokens, by the text of the property."""
    pieces, toks, i = [], [], 0
    while True:
        m = st.find_start(text, i)
        if not m: return pieces, [text[i:]], None, toks
        toks.extend(tokens(m))
        e = st.find_end(text, m.span()[1])
        if not e: return pieces, [text[i:]], [text[i:m.span()[0]], text[m.span()[0]:]], toks
        pieces.append(text[i:m.span()[0]])
        i = e.span()[1]


PARTS = ['<style', ' x>', '</style>', '<!--', '-->', '<comment', '>', '</comment>', '<noframes>', '</noframes', ' ', '\n', 'begin 644 a.b\n', 'end\n', 'http://a.b/c', 'ftp://x', 'https://',
         'www.z.c', '/p?q=1&r', 'x', '(', ')', '((', '))', '', '\xe9', 'M@#!\n', 'begin\n', '.', ':']


def cases(rng):
    while True:
        which = rng.choice(['paren', 'paren', 'comment', 'style', 'noframes', 'uu', 'url', 'slurp', 'keep', 'word'])
        if which in ('paren', 'keep', 'word'): text = ''.join(rng.choice('()[]ab \n') for _ in range(rng.randint(0, 14)))
        else: text = ''.join(rng.choice(PARTS) for _ in range(rng.randint(0, 12)))
        yield dict(which=which, text=text, sep=rng.choice(['', ' ', '--', 'ab']), bytes=rng.random() < .6)


def make(case):
    import re
    w = case['which']
    enc = (lambda s: s.encode('latin-1')) if case['bytes'] or w not in ('paren', 'keep', 'word') else (lambda s: s)
    if w == 'comment': st = strippers.CommentStripper
    elif w == 'style': st = strippers.StyleStripper
    elif w == 'noframes': st = strippers.NoframesStripper
    elif w == 'uu': st = UUencodeStripper()
    elif w == 'url': st = URLStripper()
    elif w == 'slurp': st = SlurpingURLStripper()
    else:
        class Own(Stripper):
            def tokenize(self, m): return [m.span(), m.group()] if w != 'keep' else []
        pats = {'paren': (r'\(|\[', r'\)|\]'), 'keep': (r'\(+', r'\)+'), 'word': (r'a+', r'(?=b)')}[w]
        st = Own(re.compile(enc(pats[0])).search, re.compile(enc(pats[1])).search)
        st.separator = enc(case['sep'])
    return st, enc(case['text'])


def run_case(case):
    st, text = make(case)
    try:
        pieces, whole, split, toks = expected(st, text, st.tokenize)
    except Exception: return None            # tokens of a mark: C27
    try: out, got = st.analyze(text)
    except Exception as e: return 'analyze(%r) raised %r' % (text, e)
    wants = [st.separator.join(pieces + rest) for rest in (whole, split) if rest is not None]
    if out not in wants or type(out) is not type(text): return '%s.analyze(%r): %r, not %r' % (case['which'], text, out, wants[0])
    if list(got) != list(toks): return '%s.analyze(%r): tokens %r, not %r' % (case['which'], text, got, toks)
    try: again = st.analyze(text)
    except Exception as e: return 'a second analyze(%r) raised %r' % (text, e)
    if again[0] != out or list(again[1]) != list(got): return 'a second analyze(%r) gives %r' % (text, again)
    return None
