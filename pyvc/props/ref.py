"""Reference oracles, written from the text of the properties."""
import math
from collections import Counter
from fractions import Fraction

from .. import harvest


class Boom(Exception):
    """Raised by a token stream part way."""


def stream(tokens, kind, fail_at=None):
    """The tokens as an iterable of some kind."""
    if fail_at is not None:
        def g():
            for i, t in enumerate(tokens):
                if i == fail_at: raise Boom('stream')
                yield t
            raise Boom('stream')
        return g()
    return {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda x: (t for t in x), 'set': set}[kind](tokens)


def pairs(tokens):
    out = []
    for x, y in zip(tokens, tokens[1:]):
        if isinstance(x, bytes) and isinstance(y, bytes): out.append(b'bi:' + x + b' ' + y)
        else: out.append('bi:%s %s' % (x, y))
    return out


class Ref:
    """Counts as sets of messages."""
    def __init__(self, bigrams=False):
        self.n = {True: 0, False: 0}
        self.c = {True: Counter(), False: Counter()}
        self.bigrams = bigrams

    def words(self, tokens):
        w = set(tokens)
        if self.bigrams: w |= set(pairs(list(tokens)))
        return w

    def learn(self, tokens, spam):
        self.n[spam] += 1
        for w in self.words(tokens): self.c[spam][w] += 1

    def unlearn(self, tokens, spam):
        self.n[spam] -= 1
        for w in self.words(tokens): self.c[spam][w] -= 1

    def known(self):
        return {w for k in (True, False) for w, n in self.c[k].items() if n}

    def counts(self):
        return {w: (self.c[True][w], self.c[False][w]) for w in self.known()}

    def prob(self, w):
        s, h = self.c[True][w], self.c[False][w]
        if s + h == 0: return 0.5
        sr = Fraction(s, self.n[True] or 1)
        hr = Fraction(h, self.n[False] or 1)
        r = sr / (sr + hr)
        n = s + h
        return float((Fraction(225, 1000) + n * r) / (Fraction(45, 100) + n))


def clf_state(clf):
    return (clf.nspam, clf.nham, {w: (r.spamcount, r.hamcount) for w, r in clf.wordinfo.items()})


def compare_state(clf, ref):
    ns, nh, c = clf_state(clf)
    if (ns, nh) != (ref.n[True], ref.n[False]):
        return 'message totals (%r, %r), expected (%r, %r)' % (ns, nh, ref.n[True], ref.n[False])
    want = ref.counts()
    if c != want:
        for w in sorted(set(c) | set(want), key=repr):
            if c.get(w) != want.get(w): return 'word %r has counts %r, expected %r' % (w, c.get(w), want.get(w))
    return None


# the database classifier

def scratch():
    """A new directory, removed afterwards."""
    import tempfile
    return tempfile.TemporaryDirectory(dir='.')


def clf_counts(clf, words):
    """The counts of some words, by the interface of the classifier."""
    out = {}
    for w in words:
        r = clf._wordinfoget(w)
        if r is not None: out[w] = (r.spamcount, r.hamcount)
    return out


def shelf_counts(clf, words):
    """The counts of some words of a database classifier, without disturbing it."""
    from sbclassifier.classifiers import storage
    key = getattr(storage, '_db_key', lambda w: w)
    out = {}
    for w in words:
        if w in clf.wordinfo: out[w] = (clf.wordinfo[w].spamcount, clf.wordinfo[w].hamcount)
        elif w not in clf.deleted_words:
            r = clf.db.get(key(w))
            if r: out[w] = tuple(r)
    return out


def all_words(case):
    """Every word of a history, and some that it never uses."""
    ws = set(w for op in case['ops'] if op[0] in ('learn', 'unlearn', 'score') for w in dec(op[1]))
    if case['bigrams']: ws |= set(p for op in case['ops'] if op[0] in ('learn', 'unlearn') for p in pairs(dec(op[1])))
    other = ['never seen', 'saved state', 's:saved state', 'b:a', 's:b:a', 's:s:x']
    return sorted(ws | set(other) | set(w.encode() for w in other), key=repr)


def compare_counts(clf, ref, words):
    if (clf.nspam, clf.nham) != (ref.n[True], ref.n[False]):
        return 'message totals (%r, %r), expected (%r, %r)' % (clf.nspam, clf.nham, ref.n[True], ref.n[False])
    want = ref.counts()
    have = clf_counts(clf, words)
    for w in words:
        if have.get(w) != want.get(w): return 'word %r has counts %r, expected %r' % (w, have.get(w), want.get(w))
    return None


def play_shelf(case, after_open=lambda clf, ref: None):
    """Plays a history on a database classifier, an in-memory one and the
    reference. Steps: store, check (all words), load, reopen."""
    from sbclassifier.classifiers.basic import Classifier
    from sbclassifier.classifiers.storage import ShelveClassifier
    words = all_words(case)
    mem = Classifier(use_bigrams=case['bigrams'])
    class Twin(Ref):
        def learn(self, t, s):
            super().learn(t, s)
            mem.learn(list(t), s)
        def unlearn(self, t, s):
            super().unlearn(t, s)
            mem.unlearn(list(t), s)
    ref = Twin(case['bigrams'])
    with scratch() as d:
        def new(): return ShelveClassifier(d + '/words')
        clf = new()
        def after(op, ref):
            if (clf.nspam, clf.nham) != (ref.n[True], ref.n[False]):
                return 'message totals (%r, %r), expected (%r, %r)' % (clf.nspam, clf.nham, ref.n[True], ref.n[False])
            if op[0] == 'score':
                m = dec(op[1])
                a, b = clf.spamprob(list(m)), mem.spamprob(list(m))
                if a != b: return 'score %r, the in-memory classifier gives %r' % (a, b)
            return None
        def store(op): clf.store()
        def check(op): return compare_counts(clf, ref, words)
        class Proxy:
            def __getattr__(self, n): return getattr(clf, n)
        def reopen(op):
            nonlocal clf
            clf.store()
            clf.close()
            clf = new()
        def load(op):
            clf.store()
            clf.load()
        def peek(op):
            clf.store()
            other = ShelveClassifier(d + '/words', 'r')
            f = compare_counts(other, ref, words)
            other.close()
            if f: return 'another classifier that opened the file after store(): ' + f
        try:
            f = play(case, Proxy(), after, ref, dict(store=store, check=check, reopen=reopen, load=load, peek=peek))
            if f: return f
            f = compare_counts(clf, ref, words)
            if f: return 'at the end: ' + f
            for m in case.get('messages', ()):
                f = after(['score', m], ref)
                if f: return 'at the end, message %r: %s' % (m, f)
        finally:
            clf.close()
    return None


def logchi2q(x, n):
    """min(1, exp(-x/2) * sum over i < n of (x/2)^i / i!), computed in logs."""
    m = x / 2.0
    if m <= 0: return 1.0
    logs = [i * math.log(m) - math.lgamma(i + 1) - m for i in range(n)]
    top = max(logs)
    if top < -1000: return 0.0
    return min(1.0, math.exp(top) * math.fsum(math.exp(l - top) for l in logs))


def score(probs):
    n = len(probs)
    if n == 0: return 0.5, None, None
    S = 1 - logchi2q(-2 * math.fsum(math.log1p(-p) for p in probs), n)
    H = 1 - logchi2q(-2 * math.fsum(math.log(p) for p in probs), n)
    return (S - H + 1) / 2, H, S


# histories

VOCAB = ['a', 'b', 'c', 'dd', 'e e', 'saved state', '', 'b:a', 's:x', '\u00e9\u4e16', 'http', 'x' * 40, 'D', 'C', 'to:2**1',
         'skip:x 20', 'bi:a b', '*H*', '*S*']


def vocab(rng, kind, n):
    v = list(VOCAB)
    rng.shuffle(v)
    v = v[:n] + ['w%d' % i for i in range(max(0, n - len(v)))]
    if kind == 'bytes': v = [x.encode('utf-8') for x in v]
    return v


def enc(tokens):
    return [['b', t.decode('latin-1')] if isinstance(t, bytes) else ['s', t] for t in tokens]


def dec(tokens):
    return [x.encode('latin-1') if k == 'b' else x for k, x in tokens]


def message(rng, v, maxlen=8):
    n = rng.choice([0, 1, 2, 3, rng.randint(0, maxlen)])
    return [rng.choice(v) for _ in range(n)]


def history_case(rng, bigrams=(False,), kinds=('str', 'bytes'), score=True, steps=None, extra=(), most=40000):
    """A random history: JSON-able."""
    kind = rng.choice(kinds)
    size = rng.choice([2, 3, 5, 19, 60])
    v = vocab(rng, kind, size)
    ops = []
    trained = []
    for _ in range(steps or rng.choice([2, 4, 8, 16, 40])):
        r = rng.random()
        it = rng.choice(['list', 'tuple', 'iter', 'gen'])
        if r < 0.5 or not trained:
            m = rng.choice(trained)[0] if trained and rng.random() < 0.2 else message(rng, v, rng.choice([4, 8, 30]))
            s = rng.random() < 0.5
            trained.append((m, s))
            ops.append(['learn', enc(m), s, it])
        elif r < 0.75:
            m, s = trained.pop(rng.randrange(len(trained)))
            m2 = list(m)
            if True not in bigrams and rng.random() < 0.5:
                rng.shuffle(m2)
                if m2: m2.append(rng.choice(m2))
            ops.append(['unlearn', enc(m2), s, it])
        elif r < 0.82:
            m = message(rng, v)
            ops.append(['boom', rng.choice(['learn', 'unlearn']), enc(m), rng.random() < 0.5, rng.randint(0, len(m))])
        elif r < 0.87:
            ops.append(['empty-unlearn', enc(message(rng, v)), rng.random() < 0.5])
        elif score:
            ops.append(['score', enc(message(rng, v, 30)), it, rng.random() < 0.5])
        for e in extra:
            if rng.random() < 0.1: ops.append([e])
    if most and rng.random() < 0.03:
        n = harvest.near(rng, 'sbclassifier.classifiers.basic', 'sbclassifier.classifiers.storage', high=most)
        if n: ops.insert(rng.randint(0, len(ops)), rng.choice([['again', enc(message(rng, v)), rng.random() < 0.5, n], ['many', rng.random() < 0.5, n]]))
    return dict(kind=kind, bigrams=rng.choice(list(bigrams)), ops=ops)


def play(case, clf, after, ref=None, hooks=None):
    """Plays a history on a classifier and the reference; after(op, ref) is
    called after each step and returns a failure text or None."""
    ref = ref or Ref(case['bigrams'])
    for i, op in enumerate(case['ops']):
        k = op[0]
        try:
            if k in ('learn', 'unlearn'):
                tokens = dec(op[1])
                how = i % 2
                f = getattr(clf, k)
                if how and hasattr(clf, '%s_%s' % (k, 'spam' if op[2] else 'ham')):
                    getattr(clf, '%s_%s' % (k, 'spam' if op[2] else 'ham'))(stream(tokens, op[3]))
                else: f(stream(tokens, op[3]), op[2])
                getattr(ref, k)(tokens, op[2])
            elif k == 'boom':
                try: getattr(clf, op[1])(stream(dec(op[2]), 'list', op[4]), op[3])
                except Boom: pass
                except ValueError: pass
                else: return 'step %d %r: the exception of the stream was lost' % (i, op)
            elif k == 'again':
                m = dec(op[1])
                for _ in range(op[3]):
                    clf.learn(m, op[2])
                    ref.learn(m, op[2])
            elif k == 'many':
                m = ['many%d' % j for j in range(op[2])]
                if case['kind'] == 'bytes': m = [w.encode() for w in m]
                clf.learn(m, op[1])
                ref.learn(m, op[1])
            elif k == 'empty-unlearn':
                if ref.n[op[2]] == 0:
                    try: clf.unlearn(dec(op[1]), op[2])
                    except ValueError: pass
                    else: return 'step %d %r: untraining from a class without messages was not refused' % (i, op)
            elif k == 'score':
                clf.spamprob(stream(dec(op[1]), op[2]), op[3])
            elif hooks and k in hooks:
                r = hooks[k](op)
                if r: return 'step %d %r: %s' % (i, op, r)
        except Exception as e:
            return 'step %d %r raised %s: %s' % (i, op, type(e).__name__, e)
        f = after(op, ref)
        if f: return 'after step %d %r: %s' % (i, op[:1] + op[2:], f)
    return None


# scoring

def scoring_case(rng, kinds=('str', 'bytes')):
    """A trained state (totals and counts) and a message."""
    kind = rng.choice(kinds)
    size = rng.choice([0, 1, 2, 3, 10, 40, 149, 150, 151, 152, 200, 400])
    v = vocab(rng, kind, size)
    big = rng.choice([3, 3, 10, 100, 10 ** 4, 2 ** 39])
    ns, nh = rng.choice([0, 1, rng.randint(0, big)]), rng.choice([0, 1, rng.randint(0, big)])
    mode = rng.choice(['any', 'spammy', 'hammy', 'strong', 'weak', 'few'])
    words = []
    for w in v:
        s, h = rng.randint(0, ns), rng.randint(0, nh)
        if mode == 'spammy': h = 0
        if mode == 'hammy': s = 0
        if mode == 'strong' and rng.random() < 0.9: s, h = rng.choice([(ns, 0), (0, nh)])
        if mode == 'few': s, h = min(s, rng.randint(0, 2)), min(h, rng.randint(0, 2))
        if s + h and rng.random() < 0.95: words.append([w.decode('latin-1') if kind == 'bytes' else w, s, h])
    toks = [w for w in v if rng.random() < 0.95]
    toks += [rng.choice(v) for _ in range(rng.randint(0, 5)) if v]
    extra = [w if kind == 'str' else w.encode() for w in ('unknown', 'zzz') if rng.random() < 0.3]
    toks += extra
    rng.shuffle(toks)
    return dict(kind=kind, nspam=ns, nham=nh, words=words, message=enc(toks), it=rng.choice(['list', 'iter', 'gen', 'set']))


def scoring_setup(case, make=None):
    from sbclassifier.classifiers.basic import Classifier, WordInfo
    clf = (make or Classifier)()
    clf.nspam, clf.nham = case['nspam'], case['nham']
    for w, s, h in case['words']:
        if case['kind'] == 'bytes': w = w.encode('latin-1')
        clf._wordinfoset(w, WordInfo(s, h))
    return clf, dec(case['message'])


def clf_prob(clf, w):
    """The probability of a word, by the text of the property."""
    r = clf.wordinfo.get(w)
    if r is None: return 0.5
    return prob_of(r.spamcount, r.hamcount, clf.nspam, clf.nham)


def prob_of(s, h, ns, nh):
    if s + h == 0: return 0.5
    sr, hr = Fraction(s, ns or 1), Fraction(h, nh or 1)
    r = sr / (sr + hr)
    n = s + h
    return float((Fraction(225, 1000) + n * r) / (Fraction(45, 100) + n))


# ---------------------------------------------------------------- headers

def header_cases(rng):
    import math
    notes = ['ham', 'spam', 'unsure']
    plain = ['', 'x', 'hello', 'ham', 'ham ,x', 'spam', 'Spam,x', ' ham,x', 'a, b', 'a@b.c, d@e.f', 'HAM,', 'unsure;', 'spam@spambayes.invalid', 'ham-1,', 'x' * 100, 'spamspam,', '%s', '{}']
    noted = ['ham,', 'spam,ham,x', 'unsure,', 'ham,x', 'spam@spambayes.invalid,', 'ham@spambayes.invalid,a@b', 'unsure@spambayes.invalid,ham@spambayes.invalid,x', 'ham,ham,ham,', 'spam,unsure,a']
    probs = [0.0, 1.0, 0.2, 0.9, 0.5, 0.1, 0.3, 0.7, 0.005, 0.995, 1e-9, 1 - 1e-9, 0.004, 0.996, 0.29, 0.57]
    def value(): return rng.choice(plain if rng.random() < 0.7 else noted)
    while True:
        hs = []
        for name in rng.sample(['To', 'Subject', 'From', 'Cc', 'X-Other', 'SUBJECT', 'to', 'X-Spambayes-Other', 'Received'], rng.choice([1, 2, 3, 5, 9])):
            hs.append([name, value()])
        if rng.random() < 0.7:
            have = {n.lower() for n, v in hs}
            for n in ('To', 'Subject'):
                if n.lower() not in have: hs.insert(rng.randint(0, len(hs)), [n, value()])
        p = rng.choice(probs) if rng.random() < 0.6 else rng.random()
        if rng.random() < 0.2: p = min(1.0, max(0.0, math.nextafter(p, rng.choice([0, 1]))))
        yield dict(headers=hs, body=rng.choice(['', 'b\n', 'To: x\n\nSubject: y\n', 'ham,spam\n']), prob=p,
                   clues=[[rng.choice(['word', 'b:raw', 'b:*H*', 'b:*S*', 'subject:x', 'é', "it's", 'w' * 60, '*H*', 'z' * rng.randint(1, 70)]), rng.choice([0.0, 1.0, 0.5, 0.3, 0.7, 0.1, 0.9, rng.random()])] for _ in range(rng.choice([0, 0, 1, 2, 3, 12]))],
                   cutoff=rng.choice([0.5, 0.3, 0.0, 0.1, 0.45]), thermostat=rng.random() < 0.5, score=rng.random() < 0.5, log=rng.random() < 0.5,
                   digits=rng.choice([0, 1, 2, 2, 5, 10]), evidence=rng.random() < 0.5, uid=rng.random() < 0.7, id=rng.choice(['id1', '', 'a b']),
                   to=rng.choice([None, [], [rng.choice(notes)], rng.sample(notes, 2), notes]), subject=rng.choice([None, [], [rng.choice(notes)], rng.sample(notes, 2), notes]),
                   remove=rng.choice([[True, True], [True, False], [False, True], [False, False]]))


def header_message(case):
    from sbclassifier.message import Message
    m = Message(case['id'])
    for n, v in case['headers']: m[n] = v
    m.set_payload(case['body'])
    return m


def header_add(m, case):
    from sbclassifier.message import Classification as C
    clues = [(w[2:].encode() if w.startswith('b:') else w, p) for w, p in case['clues']]
    cl = lambda l: None if l is None else tuple(C[x] for x in l)
    m.add_sb_headers(case['prob'], clues, include_thermostat=case['thermostat'], include_score=case['score'], header_score_digits=case['digits'],
                     header_score_logarithm=case['log'], include_evidence=case['evidence'], clue_mailheader_cutoff=case['cutoff'],
                     add_unique_id=case['uid'], notate_to=cl(case['to']), notate_subject=cl(case['subject']))
    return clues


def check_added(case):
    from email.header import Header
    m = header_message(case)
    before = m.items()
    try: clues = header_add(m, case)
    except Exception as e: return 'adding raised %r' % (e,)
    p = case['prob']
    c = 'ham' if p < 0.2 else 'spam' if p > 0.9 else 'unsure'
    if m.classification() is None or m.classification().name != c: return 'classification %r, expected %s' % (m.classification(), c)
    if m.get_payload() != case['body'] or m.id() != case['id'] or m.is_trained() is not None: return 'something other than the headers changed'
    want = []
    for name, notes, note in (('to', case['to'], c + '@spambayes.invalid'), ('subject', case['subject'], c)):
        seen = False
        for i, (n, v) in enumerate(before):
            if n.lower() == name and not seen:
                seen = True
                if c in (notes or ()): before[i] = (n, '%s,%s' % (note, v))
        if not seen and c in (notes or ()): want.append((name, note))
    after = m.items()
    if after[:len(before)] != before: return 'the headers from before became %r, expected %r' % (after[:len(before)], before)
    new = [(n.lower(), v) for n, v in after[len(before):]]
    got = dict(new)
    if len(got) != len(new): return 'a header was added twice: %r' % (new,)
    want.append(('x-spambayes-classification', c))
    if case['uid']: want.append(('x-spambayes-mailid', case['id']))
    if case['thermostat']: want.append(('x-spambayes-level', '*' * int(p * 10)))
    for n, v in want:
        if got.pop(n, None) != v: return 'header %s is %r, expected %r' % (n, dict(new).get(n), v)
    if case['score']:
        v = got.pop('x-spambayes-spam-probability', None)
        f = '%.*f' % (case['digits'], p)
        if v is None or not (v == f if not case['log'] else v.split(' ')[0] == f): return 'score header is %r, expected %r' % (v, f)
    if case['evidence']:
        v = got.pop('x-spambayes-evidence', None)
        h = case['cutoff']
        listed = ['%r: %.2f' % (Header(w, charset='utf-8').encode() if isinstance(w, str) else w, s) for w, s in clues if w in (b'*H*', b'*S*') or s <= h or s >= 1 - h]
        if v is None: return 'no evidence header'
        if v.replace(';\n\t', '; ') != '; '.join(listed).replace(';\n\t', '; '): return 'evidence header is %r, expected the clues %r' % (v, listed)
    if got: return 'other headers were added: %r' % (got,)
    return None


def check_undone(case):
    from sbclassifier.message import Classification as C
    TO = ['%s@spambayes.invalid,' % c for c in ('ham', 'spam', 'unsure')]
    SUB = ['%s,' % c for c in ('ham', 'spam', 'unsure')]
    m = header_message(case)
    before = m.items()
    # what removing does to any message
    expect, seen = [], set()
    for n, v in before:
        l = n.lower()
        if l in ('to', 'subject') and l not in seen:
            seen.add(l)
            if case['remove'][0 if l == 'to' else 1]:
                for d in TO if l == 'to' else SUB:
                    if v.startswith(d):
                        v = v[len(d):]
                        break
        expect.append((n, v))
    r = header_message(case)
    try: r.remove_sb_headers(remove_to_notations=case['remove'][0], remove_subject_notations=case['remove'][1])
    except Exception as e: return 'removing raised %r' % (e,)
    if r.items() != expect: return 'removing gives %r, expected %r' % (r.items(), expect)
    if r.get_payload() != case['body'] or r.id() != case['id'] or r.classification() is not None: return 'removing changed something else'
    # adding and removing
    first = {}
    for n, v in before: first.setdefault(n.lower(), v)
    if 'to' not in first or 'subject' not in first: return None
    if any(first['to'].startswith(d) for d in TO) or any(first['subject'].startswith(d) for d in SUB): return None
    try:
        header_add(m, case)
        m.remove_sb_headers()
    except Exception as e: return 'adding and removing raised %r' % (e,)
    if m.items() != before: return 'after adding and removing the headers are %r, they were %r' % (m.items(), before)
    if m.get_payload() != case['body']: return 'the body changed'
    return None
