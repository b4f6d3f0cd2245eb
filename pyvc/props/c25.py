"""Line ends: CRLF only, everything else in place.

re.sub with a pattern of bounded length and str.replace read a text from left to right and hold back a few characters at most. Their contract is
that machine, made from the pattern of the current source. The induction over the text is done for all texts at once: for every reachable state
of the machines and every class of next character, the outputs stay equal up to what is held back (one obligation each), and are equal at the end.
"""
import io, re
from re import _parser
from .lib import *
from .. import models
from ..ops import raise_

import email.generator
from sbclassifier import message
from sbclassifier.message import Message, force_crlf

ASSUMPTIONS = [
    'the text is a str (bytes cannot be normalised and raise TypeError)',
    'rendering a message with parts: Generator.flatten writes any text or raises TypeError, get_payload() gives a list of parts, and each part renders as any text',
]
TRUSTED = [
    're.sub for patterns of bounded length without look-around: leftmost match, first alternative that matches, replaced from left to right',
    'str.replace: leftmost matches, from left to right',
]

S = z3.StringSort()
MAX = 64


def expand(seq):
    """The texts a parsed pattern matches, as sequences of sets of characters, in the order in which they are tried."""
    out = [()]
    for op, arg in seq:
        name = str(op)
        if name == 'LITERAL': alts = [(frozenset([chr(arg)]),)]
        elif name == 'IN': alts = [(charset(arg),)]
        elif name == 'BRANCH': alts = [x for b in arg[1] for x in expand(b)]
        elif name == 'SUBPATTERN':
            if arg[1] or arg[2]: raise Unsupported('flags in a pattern')
            alts = expand(arg[3])
        elif name in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = arg
            if hi is _parser.MAXREPEAT or hi > 4: raise Unsupported('a pattern without bound')
            one = expand(sub)
            alts = []
            for n in (range(hi, lo - 1, -1) if name == 'MAX_REPEAT' else range(lo, hi + 1)):
                level = [()]
                for _ in range(n): level = [a + b for a in level for b in one]
                alts += level
            if len(one) > 1 and hi > 1: raise Unsupported('a repeated choice')
        else: raise Unsupported('pattern with ' + name)
        out = [a + b for a in out for b in alts]
        if len(out) > MAX: raise Unsupported('a long pattern')
    return out


def charset(items):
    out = set()
    for op, arg in items:
        if str(op) == 'LITERAL': out.add(chr(arg))
        elif str(op) == 'RANGE' and arg[1] - arg[0] < 40: out |= set(map(chr, range(arg[0], arg[1] + 1)))
        else: raise Unsupported('pattern with ' + str(op))
    return frozenset(out)


def alternatives(p):
    if not isinstance(p.pattern, str): raise Unsupported('a bytes pattern')
    if p.flags & ~(re.UNICODE | re.MULTILINE | re.DOTALL | re.VERBOSE): raise Unsupported('pattern flags')
    alts = expand(_parser.parse(p.pattern, p.flags & ~re.UNICODE))
    if any(not a for a in alts): raise Unsupported('a pattern that may match nothing')
    return alts


def template(repl, p):
    if not isinstance(repl, str): raise Unsupported('replacement %r' % (repl,))
    if '\\' in repl:
        t = _parser.parse_template(repl, p)
        t = [x for x in t if x != '']
        if any(not isinstance(x, str) for x in t): raise Unsupported('groups in a replacement')
        return ''.join(t)
    return repl


class Stage:
    """Replaces each leftmost match of an alternative (character sets) by a text."""
    def __init__(self, alts, repl):
        self.alts, self.repl = alts, [(c, z3.StringVal(c)) for c in repl]
    chars = property(lambda self: set().union(*[s for a in self.alts for s in a]) | {c for c, _ in self.repl})

    def resolve(self, b, end):
        out = []
        while b:
            n = None
            for a in self.alts:
                k = min(len(a), len(b))
                if all(b[i][0] in a[i] for i in range(k)):
                    if k == len(a): n = k; break
                    if not end: return tuple(b), out
            if n is None: out.append(b[0]); b = b[1:]
            else: out += self.repl; b = b[n:]
        return (), out
    def step(self, state, letter): return self.resolve(list(state) + [letter], False)
    def end(self, state): return self.resolve(list(state), True)[1]


NORMAL = [Stage([(frozenset('\r'), frozenset('\n')), (frozenset('\r'),), (frozenset('\n'),)], '\r\n')]


def run_chain(stages, states, letters, end=False):
    new = []
    for i, st in enumerate(stages):
        out, s = [], states[i]
        for l in letters:
            s, o = st.step(s, l)
            out += o
        if end: out, s = out + st.end(s), ()
        new.append(s)
        letters = out
    return tuple(new), letters


def text_of(letters):
    ts = [t for _, t in letters]
    return z3.StringVal('') if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def show(letters): return repr(''.join(c if c is not None else '?' for c, _ in letters))


class Texts:
    """Texts made from others by replacing."""
    def __init__(self, vc):
        self.vc, self.made = vc, {}
        cx = vc.cx
        cx.ghost['native'] = self.native
        cx.ghost['strmethod'] = self.method
        for f in (re.sub, re.split): vc.i.models[id(f)] = self.function(f)
        self.splits = {}

    def known(self, x):
        x = force(x)
        return isinstance(x, SStr) and z3.is_const(x.t)

    def put(self, x, stage):
        t = self.vc.cx.fresh('replaced', S)
        self.made[t.get_id()] = (t, stage, force(x).t)
        return SStr(t, str)

    def chain(self, t):
        out = []
        while t.get_id() in self.made:
            _, stage, t = self.made[t.get_id()]
            out.insert(0, stage)
        return t, out

    def sub(self, p, a, kw):
        names = ['repl', 'string', 'count']
        if isinstance(p, str): p = re.compile(p)
        args = dict(zip(names, map(force, a)), **{k: force(v) for k, v in kw.items()})
        if not self.known(args.get('string')): return None
        if args.get('count', 0) != 0: raise Unsupported('a number of replacements')
        return (self.put(args['string'], Stage(alternatives(p), template(args['repl'], p))),)

    def split(self, p, a, kw):
        if isinstance(p, str): p = re.compile(p)
        if len(a) != 1 or kw or not self.known(a[0]) or p.groups: return None
        return (Pieces(self, force(a[0]), alternatives(p)),)

    def native(self, interp, f, a, kw):
        s, n = getattr(f, '__self__', None), getattr(f, '__name__', None)
        if isinstance(s, re.Pattern) and n in ('sub', 'split'): return getattr(self, n)(s, a, kw)
        return None

    def function(self, f):
        def call(interp, a, kw):
            if kw.get('flags') or not isinstance(force(a[0]), (str, re.Pattern)): raise Unsupported('re.' + f.__name__)
            r = getattr(self, f.__name__)(force(a[0]), a[1:], kw)
            if r is None: raise Unsupported('re.' + f.__name__)
            return r[0]
        return call

    def method(self, interp, s, name, a, kw):
        a = [force(x) for x in a]
        if name == 'replace' and self.known(s) and len(a) == 2 and all(isinstance(x, str) for x in a) and a[0]:
            return (self.put(s, Stage([tuple(frozenset(c) for c in a[0])], a[1])),)
        if name == 'split' and self.known(s) and len(a) == 1 and isinstance(a[0], str) and a[0] and not kw:
            return (Pieces(self, s, [tuple(frozenset(c) for c in a[0])]),)
        if name == 'join' and isinstance(s, str) and len(a) == 1 and isinstance(a[0], Pieces):
            return (a[0].joined(s),)
        return None

    # ---- what is proved

    def letters(self, source, stages):
        """The classes of characters the source may have."""
        e = self.vc.e
        chars = sorted(set('\r\n').union(*[s.chars for s in stages]))
        out = []
        if e.try_prove(source == z3.StringVal('')) == 'proved': return out
        for c in chars:
            if e.try_prove(z3.Not(z3.Contains(source, z3.StringVal(c)))) != 'proved': out.append((c, z3.StringVal(c)))
        c = z3.String('character')
        self.other = z3.And(z3.Length(c) == 1, *[c != z3.StringVal(x) for x in chars])
        return out + [(None, c)]

    def rename(self, parts):
        """The held back characters of no class, in order of appearance."""
        names, out = {}, []
        for p in parts:
            q = []
            for c, t in p:
                if c is None: t = names.setdefault(t.get_id(), z3.String('held %d' % len(names)))
                q.append((c, t))
            out.append(tuple(q))
        return out

    def normal(self, name, t, source):
        """t is the source with its line ends made CRLF."""
        vc = self.vc
        s, stages = self.chain(t)
        if not s.eq(source):
            vc.prove(name + ': made from the text', z3.BoolVal(False))
            return
        letters = self.letters(source, stages)
        todo, seen = [(tuple(() for _ in stages), ((),), (), ())], set()
        while todo:
            a, b, da, db = todo.pop()
            key = repr((a, b, da, db))
            if key in seen: continue
            seen.add(key)
            if len(seen) > 3000 or len(da) > 12 or len(db) > 12: raise Unsupported('texts that drift apart')
            _, oa = run_chain(stages, a, [], True)
            _, ob = run_chain(NORMAL, b, [], True)
            vc.prove('%s: the text ends after %s' % (name, show(b[0])), text_of(list(da) + oa) == text_of(list(db) + ob))
            for l in letters:
                a2, oa = run_chain(stages, a, [l])
                b2, ob = run_chain(NORMAL, b, [l])
                xa, xb = list(da) + oa, list(db) + ob
                ya, yb = xa, xb
                while ya and yb and (ya[0][0] == yb[0][0] and ya[0][1].eq(yb[0][1])): ya, yb = ya[1:], yb[1:]
                ta, tb = text_of(xa), text_of(xb)
                vc.prove('%s: %s follows %s' % (name, show([l]), show(b[0])), z3.Implies(self.other, z3.Or(
                    ta == z3.Concat(tb, text_of(ya)) if not yb else False, tb == z3.Concat(ta, text_of(yb)) if not ya else False)))
                if ya and yb: return
                parts = self.rename(list(a2) + list(b2) + [tuple(ya), tuple(yb)])
                todo.append((tuple(parts[:len(a2)]), tuple(parts[len(a2):-2]), parts[-2], parts[-1]))
        vc.cover('every state')

    def only_crlf(self, name, t):
        """t has no line ends but CRLF."""
        vc = self.vc
        source, stages = self.chain(t)
        if not stages:
            cr, lf = z3.StringVal('\r'), z3.StringVal('\n')
            vc.prove(name, z3.InRe(t, z3.Star(z3.Union(z3.Re(z3.StringVal('\r\n')), z3.Intersect(z3.AllChar(z3.ReSort(S)), z3.Complement(z3.Union(z3.Re(cr), z3.Re(lf))))))))
            return
        letters = self.letters(source, stages)
        def after(cr, out):
            """After out: is a CR open, and was it right all along?"""
            ok = []
            for c, x in out:
                ok.append((x == z3.StringVal('\n')) if cr else (x != z3.StringVal('\n')))
                cr = c == '\r'
            return cr, z3.And(*ok)
        todo, seen = [(tuple(() for _ in stages), False)], set()
        while todo:
            a, cr = todo.pop()
            key = repr((a, cr))
            if key in seen: continue
            seen.add(key)
            if len(seen) > 3000: raise Unsupported('many states')
            _, o = run_chain(stages, a, [], True)
            cr2, ok = after(cr, o)
            vc.prove('%s: the text ends in state %d' % (name, len(seen)), z3.And(ok, not cr2))
            for l in letters:
                a2, o = run_chain(stages, a, [l])
                cr2, ok = after(cr, o)
                vc.prove('%s: %s in state %d' % (name, show([l]), len(seen)), z3.Implies(self.other, ok))
                todo.append((tuple(self.rename(a2)), cr2))
        vc.cover('every state')


class Pieces(Ext):
    def __init__(self, texts, s, alts):
        super().__init__('pieces')
        self.texts, self.s, self.alts = texts, s, alts
    def joined(self, sep): return self.texts.put(self.s, Stage(self.alts, sep))


def normalising(vc):
    x = Texts(vc)
    t = z3.String('text')
    r, exc = vc.attempt(lambda: vc.call(force_crlf, SStr(t, str)))
    vc.prove('no exception', exc is None)
    if exc is not None: return
    r = force(r)
    if isinstance(r, str):
        vc.prove('an empty text stays empty', z3.And(t == z3.StringVal(r), z3.Length(t) == 0))
        vc.cover('every state')
        return
    if not isinstance(r, SStr) or not z3.is_const(r.t): raise Unsupported('result %r' % (r,))
    x.normal('normalised', r.t, t)
    x.only_crlf('normalised has only CRLF', r.t)
    vc.cover('once')


def twice(vc):
    x = Texts(vc)
    t = z3.String('text')
    r, exc = vc.attempt(lambda: vc.call(force_crlf, vc.call(force_crlf, SStr(t, str))))
    vc.prove('no exception', exc is None)
    if exc is not None: return
    r = force(r)
    if isinstance(r, str):
        vc.prove('an empty text stays empty', z3.And(t == z3.StringVal(r), z3.Length(t) == 0))
        return
    if not isinstance(r, SStr) or not z3.is_const(r.t): raise Unsupported('result %r' % (r,))
    x.normal('normalised twice', r.t, t)
    vc.cover('twice')


class Buffer(Ext):
    def __init__(self): super().__init__('buffer'); self.text = z3.StringVal('')
    def m_getvalue(self, interp, a, kw): return SStr(self.text, str) if not z3.is_string_value(self.text) else ''
    def m_write(self, interp, a, kw): raise Unsupported('write')


class Part(Ext):
    def __init__(self, vc): super().__init__('part'); self.vc = vc
    def __eq__(self, other): return isinstance(other, Part)
    def __hash__(self): return 0
    def m_as_string(self, interp, a, kw): return SStr(core.cx().fresh('part', S), str)


class Gen(Ext):
    def __init__(self, vc, fp): super().__init__('generator'); self.vc, self.fp = vc, fp
    def m_flatten(self, interp, a, kw):
        cx = core.cx()
        if cx.branch(cx.fresh('flatten fails', B)):
            self.vc.cover('fallback')
            raise_(TypeError, 'flatten')
        self.fp.text = cx.fresh('flattened', S)
        return None


def rendering(vc):
    x = Texts(vc)
    cx = vc.cx
    new = models.ModelMethod
    vc.i.classmodels[(io.StringIO, '__new__')] = new(lambda interp, cls, a, kw: Buffer())
    vc.i.classmodels[(email.generator.Generator, '__new__')] = new(lambda interp, cls, a, kw: Gen(vc, force(a[0] if a else kw['outfp'])))
    me = Obj(Message, 'message')
    n = z3.Int('parts')
    cx.assume(n >= 0)
    part = Part(vc)
    vc.i.overrides['email.message:Message.get_payload'] = lambda interp, a, kw: PyList(n=n, get=lambda j: part, site='parts')
    cx.ghost['join'] = lambda interp, sep, l: SStr(cx.fresh('joined', S), str)
    r, exc = vc.attempt(lambda: vc.method(me, 'as_string', unixfrom=SBool(z3.Bool('unixfrom')), mangle_from_=SBool(z3.Bool('mangle'))))
    if exc is not None:
        vc.prove('the message is rendered', z3.BoolVal(False))
        return
    r = force(r)
    if not isinstance(r, (str, SStr)): vc.prove('a text', z3.BoolVal(False)); return
    x.only_crlf('rendered has only CRLF', ops.strterm(r))
    vc.cover('rendered')


def targets(tier):
    return [dict(name='force_crlf', fn=normalising, covers=['once', 'every state']), dict(name='force_crlf twice', fn=twice, covers=['twice']),
            dict(name='Message.as_string', fn=rendering, covers=['rendered', 'fallback'])]


# ---------------------------------------------------------------- the real code

ENDS = ['\r', '\n', '\r\n', '\n\r', '\r\r\n', '\n\n', '\r\r']
OTHERS = ['a', ' ', '\t', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\u2029', '\0', 'xy', '\\', '\\r', '\\n', '\xe9', '\U0001f600', '']
BODIES = ['plain', 'multipart', 'nested', 'list of parts', 'none']


def cases(rng):
    small = [''.join(p) for n in range(6) for p in __import__('itertools').product('\r\na', repeat=n)]
    for s in small: yield dict(kind='text', text=s)
    while True:
        k = rng.random()
        text = ''.join(rng.choice(ENDS) if rng.random() < .5 else rng.choice(OTHERS) for _ in range(rng.randint(0, 14)))
        if k < .1: text = text * rng.choice([40, 400, 3000])
        if k < .6: yield dict(kind='text', text=text)
        else:
            head = ''.join('%s: %s%s' % (rng.choice(['Subject', 'To', 'X-A', 'From']), rng.choice(['a', 'b c', 'd%s e' % rng.choice(['\n', '\r\n'])]), rng.choice(['\n', '\r\n'])) for _ in range(rng.randint(0, 4)))
            yield dict(kind='message', body=rng.choice(BODIES), head=head, text=text, bytes=rng.random() < .5, unixfrom=rng.random() < .5, mangle=rng.random() < .5)


def oracle(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\r':
            out.append('\r\n')
            i += 2 if s[i + 1:i + 2] == '\n' else 1
        elif s[i] == '\n': out.append('\r\n'); i += 1
        else: out.append(s[i]); i += 1
    return ''.join(out)


def lone(s):
    s = s.replace('\r\n', '')
    return '\r' in s or '\n' in s


def run_case(case):
    t = case['text']
    if case['kind'] == 'text':
        try: r = force_crlf(t)
        except Exception as e: return 'force_crlf(%.80r) raised %r' % (t, e)
        if r != oracle(t): return 'force_crlf(%.80r) is %.80r, not %.80r' % (t, r, oracle(t))
        if force_crlf(r) != r: return 'force_crlf twice of %.80r: %.80r' % (t, force_crlf(r))
        return None
    head, b = case['head'], case['body']
    sub = 'Content-Type: text/plain\n\n' + t
    if b == 'plain': src = head + '\n' + t
    elif b == 'multipart': src = head + 'Content-Type: multipart/mixed; boundary=XX\n\npre\n--XX\n' + sub + '\n--XX\n' + sub + '\n--XX--\nepilogue' + t
    else: src = head + 'Content-Type: message/rfc822\n\n' + head + '\n' + t
    try:
        if b == 'list of parts':
            m = Message()
            for p in (t, 'x'): m.attach(message.from_string('X: y\n\n' + p))
            m['X-Bad'] = 'x'
            if case['bytes']: m.policy = None
        elif b == 'none':
            m = message.from_string('A: b\n\n')
            m.set_payload(t)
        elif case['bytes']: m = message.from_bytes(src.encode('utf-8'))
        else: m = message.from_string(src)
    except Exception: return None
    m.set_unixfrom('From someone Mon Jan  1 00:00:00 2001')
    whole = io.StringIO()
    fails = False
    try: email.generator.Generator(whole, mangle_from_=case['mangle']).flatten(m, case['unixfrom'])
    except Exception: fails = True
    try: r = m.as_string(case['unixfrom'], case['mangle'])
    except Exception as e: return None if fails else 'as_string raised %r' % (e,)
    if lone(r): return 'as_string has lone line ends: %.200r' % (r,)
    if not fails and r != oracle(whole.getvalue()): return 'as_string is %.200r, not the rendered message %.200r with CRLF' % (r, whole.getvalue())
    return None
