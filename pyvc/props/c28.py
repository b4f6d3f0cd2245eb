"""Words of the body become tokens by the length rule."""
import ast
import fractions
from .lib import *
from .. import models

from sbclassifier import tokenizer
from sbclassifier.tokenizer import Tokenizer, tokenize_word

ASSUMPTIONS = [
    'text.split() gives the non-empty words between white space, in order (Python)',
    'the quotient hicount * 100.0 / len(word) is taken as a real number; round() is to the nearest, ties to even',
    'the defaults of the module are in force: maxword 12, GENERATE_LONG_SKIPS on, X_SHORT_RUNS off',
]
TRUSTED = ['re: has_highbit_char(text) finds something if and only if a character of the text is above 127']

S = z3.StringSort()
MAXWORD = 12
AT = z3.StringVal('@')
high = z3.Function('high', S, I, I)           # high(w, k): characters above 127 among the first k of w


def cat(*ts): return z3.Concat(*[z3.StringVal(t) if isinstance(t, str) else t for t in ts])


class Spec:
    """The tokens of a word (a text; what is said of characters is said of bytes)."""
    def __init__(self, w, is_bytes):
        self.w, self.is_bytes = w, is_bytes
        n = self.n = z3.Length(w)
        i = z3.IndexOf(w, AT, z3.IntVal(0))
        rest = z3.SubString(w, i + 1, n - i - 1)
        self.dot, self.at, self.at2 = z3.Contains(w, z3.StringVal('.')), z3.Contains(w, AT), z3.Contains(rest, AT)
        self.mail = z3.And(n < 40, self.dot, self.at, z3.Not(self.at2))
        self.short = n < 3
        self.middle = z3.And(n >= 3, n <= MAXWORD)
        self.eight = high(w, n) > 0
        self.count = z3.If(self.short, 0, z3.If(self.middle, 1, z3.If(self.mail, 2, z3.If(self.eight, 2, 1))))
        self.name = cat('email name:', z3.SubString(w, z3.IntVal(0), i))
        self.addr = cat('email addr:', rest)
        self.skip = cat('skip:', z3.SubString(w, z3.IntVal(0), z3.IntVal(1)), ' ', z3.IntToStr(n / 10 * 10))
        self.text = [z3.If(self.middle, w, z3.If(self.mail, self.name, self.skip)), z3.If(self.mail, self.addr, percent(w))]
        self.raw = z3.And(self.middle, z3.BoolVal(is_bytes))       # the first token is bytes


pct = z3.Function('pct', S, I)
# the whole number nearest to 100 * (characters above 127) / (characters)
def percent(w): return cat('8bit%:', z3.IntToStr(pct(w)))


def define_high(cx, w):
    code = lambda i: z3.StrToCode(z3.SubString(w, i, 1))
    cx.assume(high(w, z3.IntVal(0)) == 0)
    def step(i):
        return z3.Implies(z3.And(i >= 0, i < z3.Length(w)), high(w, i + 1) == high(w, i) + z3.If(code(i) >= 128, 1, 0))
    cx.add_fact(IDX, step, 'characters above 127')
    cx.add_fact(IDX, lambda i: z3.Implies(i >= 1, z3.substitute(step(z3.Int('hi')), (z3.Int('hi'), i - 1))), 'characters above 127')
    cx.assume(z3.And(high(w, z3.Length(w)) >= 0, high(w, z3.Length(w)) <= z3.Length(w)))    # by induction from the steps


def kind_text(v):
    """(the value is bytes, its text) of a token."""
    if isinstance(v, SAlt):
        alts = [(g, kind_text(w)) for g, w in v.alts]
        b, t = alts[-1][1]
        for g, (b1, t1) in alts[:-1]: b, t = z3.If(g, b1, b), z3.If(g, t1, t)
        return b, t
    v = force(v)
    if not isinstance(v, (str, bytes, SStr)): raise Unsupported('token %r' % (v,))
    return z3.BoolVal(ops.kindof(v) is bytes), ops.strterm(v)


def is_token(v, spec, r):
    b, t = kind_text(v)
    return z3.And(t == spec.text[r], b == (spec.raw if r == 0 else z3.BoolVal(False)))


def highbit_model(vc):
    f = tokenizer.has_highbit_char
    def h(interp, a, kw):
        v = force(a[0])
        if ops.kindof(v) is not str: ops.raise_(TypeError, 'cannot use a string pattern on a bytes-like object')
        t = ops.strterm(v)
        return SBool(high(t, z3.Length(t)) > 0)
    vc.i.models[id(f)] = h


def word(is_bytes, how):
    def run(vc):
        cx = vc.cx
        cx.feas_ms = 700
        w = z3.String('word')
        spec = Spec(w, is_bytes)
        long_ = z3.And(spec.n > MAXWORD, spec.n < 40)
        vc.assume({'short': spec.short, 'middle': spec.middle, 'address': z3.And(spec.n > MAXWORD, spec.mail),
                   'very long': spec.n >= 40, 'no dot': z3.And(long_, z3.Not(spec.dot)), 'no @': z3.And(long_, z3.Not(spec.at)), 'two @': z3.And(long_, spec.at, spec.at2)}[how])
        define_high(cx, w)
        highbit_model(vc)
        def inv(loop):
            out = []
            if loop.kind != 'seq': return out
            for o, what, v in loop.locals():
                if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                    out.append(('%s counts characters above 127' % what, ops.intterm(v) == high(w, loop.k)))
            return out
        vc.invariants(inv)
        def sum_(interp, it):
            if it.kind != 'seq': return None
            j = cx.fresh('sumidx', I)
            cx.push()
            try:
                cx.assume(z3.And(j >= 0, j < z3.Length(w)))
                keep, v = models.stage_eval(it)(j)
                ok = vc.e.try_prove(z3.And(it.n == z3.Length(w), z3.If(ops.as_term_bool(keep), ops.intterm(force(v)) if v is not None else z3.IntVal(0), 0) == z3.If(z3.StrToCode(z3.SubString(w, j, 1)) >= 128, 1, 0)))
            finally: cx.pop()
            return SInt(high(w, z3.Length(w))) if ok == 'proved' else None
        cx.ghost['sum'] = sum_
        def round_(interp, x):
            share = z3.ToReal(high(w, spec.n)) * 100 / z3.ToReal(spec.n)
            return SInt(pct(w)) if vc.e.try_prove(x.t == share) == 'proved' else None
        cx.ghost['round'] = round_
        vc.assume(pct(w) >= 0)                  # nearest to a number that is not negative
        r, exc = vc.attempt(lambda: models.to_pylist(vc.i, vc.call(tokenize_word, SStr(w, bytes if is_bytes else str)), 'tokens'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        if r.symbolic: raise Unsupported('an unknown number of tokens')
        n = len(r.items)
        vc.prove('the number of tokens', spec.count == n)
        for i, v in enumerate(r.items[:2]): vc.prove('token %d' % (i + 1), is_token(v, spec, i))
        vc.cover('%d tokens' % n)
    return dict(name='tokenize_word of %s, %s' % ('bytes' if is_bytes else 'a text', how), fn=run,
                covers={'short': ['0 tokens'], 'middle': ['1 tokens'], 'address': ['2 tokens'], }.get(how, ['1 tokens', '2 tokens']))


def text(what):
    """A text of any number of words."""
    def run(vc):
        cx = vc.cx
        n = z3.Int('n_words')
        vc.assume(n >= 0)
        W = z3.Function('word_at', I, S)
        T = z3.Function('tokens_before', I, I)
        specs = {}
        def sp(i):
            k = i.get_id()
            if k not in specs: specs[k] = (Spec(W(i), True), i)
            return specs[k][0]
        # The tokens of word i, as functions of i.
        cnt, t0, t1, raw0 = (z3.Function(x, I, s) for x, s in (('cnt', I), ('tok0', S), ('tok1', S), ('raw0', B)))
        # only what the length rule says directly is visible here; the other
        # tokens are those of the contract of tokenize_word
        def word_fact(i):
            w = W(i)
            L = z3.Length(w)
            mid = z3.And(L >= 3, L <= MAXWORD)
            return z3.Implies(z3.And(i >= 0, i < n), z3.And(L >= 1, cnt(i) >= 0, cnt(i) <= 2, (cnt(i) == 0) == (L < 3), z3.Implies(mid, cnt(i) == 1),
                              z3.Implies(mid, t0(i) == w), raw0(i) == mid))
        cx.add_fact(IDX, word_fact, 'words')
        cx.add_fact(IDX, lambda i: z3.And(z3.Implies(i >= 0, T(i + 1) == T(i) + cnt(i)), z3.Implies(i >= 1, T(i) == T(i - 1) + cnt(i - 1)), T(i) >= 0), 'tokens before')
        cx.assume(T(z3.IntVal(0)) == 0)
        words = PyList(n=n, get=memo1(lambda i: SStr(W(i), bytes)), site='words')
        body = SStr(z3.String('text'), bytes)
        def strmethod(interp, obj, name, a, kw):
            if obj is body and name == 'split':
                if a and force(a[0]) is not None or kw: raise Unsupported('split at something')
                return (words,)
        cx.ghost['strmethod'] = strmethod
        def index_of(v):
            """The word v is."""
            t = ops.strterm(v)
            t = z3.simplify(t)
            if z3.is_app(t) and t.decl().name() == 'word_at': return t.arg(0)
            raise Unsupported('tokenize_word of something that is not a word of the text')
        def contract(interp, a, kw):
            v = force(a[0] if a else kw['word'])
            mw = force(kw.get('maxword', a[2] if len(a) > 2 else MAXWORD))
            if mw != MAXWORD or len(a) > 1 and a[1] is not len: raise Unsupported('tokenize_word with other limits')
            i = index_of(v)
            cx.register_index(i)
            if not cx.branch(cnt(i) >= 1): return PyList([])
            first = SStr(t0(i), bytes) if cx.branch(raw0(i)) else SStr(t0(i), str)
            if not cx.branch(cnt(i) == 2): return PyList([first])
            return PyList([first, SStr(t1(i), str)])
        vc.i.overrides['sbclassifier.tokenizer:tokenize_word'] = contract
        reg = lambda t: (cx.register_index(z3.simplify(t)), z3.simplify(t))[1]
        def inv(loop):
            out = []
            if loop.kind != 'seq': return out
            k = loop.k
            for o, what, shape in loop.objects():
                if not isinstance(o, PyList): continue
                nm = 'list%s' % (o.oid,)
                sized = o.symbolic or bool(o.items)
                raw = ops.snapshot_list(o)
                get = lambda i, raw=raw: kind_text(raw(reg(i)))
                def first(j, sized=sized, get=get):
                    if not sized: return None
                    b, t = get(T(j))
                    return z3.Implies(z3.And(j >= 0, j < k, cnt(j) >= 1), z3.And(t == t0(j), b == raw0(j)))
                def second(j, sized=sized, get=get):
                    if not sized: return None
                    b, t = get(T(j) + 1)
                    return z3.Implies(z3.And(j >= 0, j < k, cnt(j) == 2), z3.And(t == t1(j), z3.Not(b)))
                out += [('%s: tokens of the words so far' % nm, o.length() == T(k)), ('%s: counts' % nm, I, lambda j: z3.Implies(z3.And(j >= 0, j < k), T(j) + cnt(j) <= T(k))),
                        ('%s: first token' % nm, I, first), ('%s: second token' % nm, I, second)]
            return out
        vc.invariants(inv)
        tk = Obj(Tokenizer, 'tokenizer')
        r, exc = vc.attempt(lambda: models.to_pylist(vc.i, vc.method(tk, 'tokenize_text', body), 'tokens'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        reg(n); reg(n - 1)
        vc.prove('the tokens of the words, no others', r.length() == T(n))
        if r.symbolic or r.items:
            get = lambda i: kind_text(r.get(reg(i)))
            def g0(j):
                b, t = get(T(j))
                return z3.Implies(z3.And(j >= 0, j < n, cnt(j) >= 1), z3.And(T(j) < r.length(), t == t0(j), b == raw0(j)))
            def g1(j):
                b, t = get(T(j) + 1)
                return z3.Implies(z3.And(j >= 0, j < n, cnt(j) == 2), z3.And(T(j) + 1 < r.length(), t == t1(j), z3.Not(b)))
            vc.prove('the first token of each word', g0, I)
            vc.prove('the second token of each word', g1, I)
            vc.cover('tokens')
        vc.cover('end')
    return dict(name='tokenize_text', fn=run, covers=['end', 'tokens'])


def targets(tier):
    return [word(b, h) for b in (True, False) for h in ('short', 'middle', 'address', 'no dot', 'no @', 'two @', 'very long')] + [text('')]


# ---------------------------------------------------------------- concrete

def expected(word):
    n = len(word)
    if n < 3: return []
    if n <= 12: return [word]
    text = word.decode('latin-1') if isinstance(word, bytes) else word
    if n < 40 and '.' in text and text.count('@') == 1:
        i = text.index('@')
        return ['email name:' + text[:i], 'email addr:' + text[i + 1:]]
    out = ['skip:' + text[0] + ' ' + str(n - n % 10)]
    high = sum(1 for c in text if ord(c) >= 128)
    if high: out.append('8bit%:' + str(round(fractions.Fraction(100 * high, n))))
    return out


def make_word(rng, isb):
    n = rng.choice([1, 2, 3, 3, 4, 11, 12, 12, 13, 13, 14, 19, 20, 21, 29, 30, 38, 39, 39, 40, 40, 41, 50, 79, 99, 100, 101, 200, rng.randrange(1, 60)])
    alphabet = rng.choice(['ab', 'ab.@', 'ab.@\x80\xff', 'a\xe9', '\x7f\x80', 'aB\x00\x01\u20ac\u0394', 'abcdefgh.'])
    cs = [rng.choice(alphabet) for _ in range(n)]
    for _ in range(rng.randrange(3)): cs[rng.randrange(n)] = rng.choice('@.\x80\x7f')
    w = ''.join(cs)
    if isb: return w.encode('latin-1', 'replace')
    return w


def cases(rng):
    while True:
        isb = rng.random() < .5
        if rng.random() < .5: yield dict(word=lit(make_word(rng, isb)))
        else:
            seps = [' ', '\n', '\t', '\r\n', '  ', ' \x0b ', '\x0c'] if isb else [' ', '\n', '\t', '\r\n', '  ', '\xa0', '\u3000']
            text = ''.join(rng.choice(seps) + rng.choice(['x', 'yz', 'a.b'] + [make_word(rng, False)] * 3) for _ in range(rng.randrange(8))) + rng.choice(['', ' '])
            yield dict(text=lit(text.encode('latin-1', 'replace') if isb else text))


def run_case(case):
    try:
        if 'word' in case:
            w = ast.literal_eval(case['word'])
            got, want = list(tokenize_word(w)), expected(w)
        else:
            t = ast.literal_eval(case['text'])
            got, want = list(Tokenizer().tokenize_text(t)), [x for w in t.split() for x in expected(w)]
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    if got != want: return 'tokens %r, expected %r' % (got[:6], want[:6])


def lit(x): return repr(x)
