"""DNS lookups leave the process-wide socket timeout as it was."""
import socket
from .lib import *
from .. import models

from sbclassifier import dnsutils

ASSUMPTIONS = [
    'the lookup functions of the C library (gethostbyaddr, getaddrinfo) return or raise any exception; they '
    'do not change the default timeout themselves',
    'one thread: nothing else changes the default timeout during a lookup',
    'asynchronous exceptions (signals) between two statements are not considered',
]
TRUSTED = ['socket.getdefaulttimeout and socket.setdefaulttimeout read and set one process-wide value']

LIMIT = 10


class OtherError(Exception): pass
class OtherExit(BaseException): pass


class Net:
    """The process-wide default timeout and the outcome of lookups."""
    def __init__(self, vc, timeout, outcome):
        self.timeout = timeout
        self.outcome = outcome
        self.lookups = []
        m = vc.i.models
        m[id(socket.getdefaulttimeout)] = lambda interp, a, kw: self.timeout
        m[id(socket.setdefaulttimeout)] = self.set
        for f in (socket.gethostbyaddr, socket.getaddrinfo, socket.gethostbyname, socket.gethostbyname_ex, socket.getfqdn):
            m[id(f)] = lambda interp, a, kw, f=f: self.lookup(interp, f, a, kw)

    def set(self, interp, a, kw):
        self.timeout = force(a[0])
        return None

    def lookup(self, interp, f, a, kw):
        self.lookups.append((f.__name__, self.timeout))
        if isinstance(self.outcome, type): ops.raise_(self.outcome, 'lookup')
        name = STok(z3.Const('name', Tok))
        if f is socket.gethostbyaddr:
            return (name, models_list('aliases'), models_list('addresses'))
        if f is socket.getaddrinfo:
            return models_list('infos', lambda i: (2, 1, 6, '', (STok(z3.Function('address', I, Tok)(i)), 80)))
        if f is socket.gethostbyname_ex:
            return (name, models_list('aliases'), models_list('addresses'))
        return name


def models_list(name, elem=None):
    n = z3.Int('n_' + name)
    core.cx().assume(n >= 0)
    g = z3.Function('l_' + name, I, Tok)
    return PyList(n=n, get=memo1(elem or (lambda i: STok(g(i)))), site=name)


OUTCOMES = [None, socket.timeout, socket.herror, socket.gaierror, OSError, UnicodeError, OtherError, OtherExit, KeyboardInterrupt]


def lookup(fname, outcome, before):
    def run(vc):
        cx = vc.cx
        t0 = None if before is None else SReal(z3.Real('timeout0'))
        if t0 is not None: vc.assume(t0.t >= 0)
        net = Net(vc, t0, outcome)
        arg = STok(z3.Const('arg', Tok))
        f = getattr(dnsutils, fname)
        r, exc = vc.attempt(lambda: as_seen(vc, vc.call(f, arg)))
        vc.prove('the timeout is the one from before', (net.timeout is None) if t0 is None else ops.as_term_bool(ops.eq(net.timeout, t0)) if net.timeout is not None else False)
        vc.prove('looks something up', bool(net.lookups))
        for name, t in net.lookups:
            vc.prove('the limit holds during the lookup', ops.as_term_bool(ops.eq(t, LIMIT)) if t is not None else False)
        empty_for = {socket.timeout: True, socket.herror: fname == 'reverse_dns_lookup'}
        if empty_for.get(outcome):
            vc.prove('an empty result', exc is None and r is not None and ops.as_term_bool(ops.eq(r.length(), 0)) if exc is None else False)
        elif outcome is None:
            vc.prove('a result', exc is None)
            if exc is None and fname == 'reverse_dns_lookup':
                vc.prove('one name', z3.And(r.length() == 1, keyterm(r.get(z3.IntVal(0))) == z3.Const('name', Tok)))
            elif exc is None:
                vc.prove('the addresses', lambda i: z3.Implies(z3.And(i >= 0, i < r.length()), addr_of(cx, r.get(i))), I)
        else: vc.prove('the error of the lookup', exc is not None and exc.cls is outcome)
        vc.cover('end')
    what = 'succeeds' if outcome is None else 'raises ' + outcome.__name__
    return dict(name='%s %s, timeout %s' % (fname, what, 'none' if before is None else 'set'), fn=run, covers=['end'])


def as_seen(vc, r): return models.to_pylist(vc.i, r, 'result')


def addr_of(cx, v):
    """v is the address of some entry."""
    t = keyterm(v)
    for f in cx.ghost.get('addr_index', []): pass
    i = cx.fresh('which', I)
    g = z3.Function('address', I, Tok)
    return z3.Exists([i], g(i) == t)


def targets(tier):
    return [lookup(f, o, b) for f in ('reverse_dns_lookup', 'dns_lookup') for o in OUTCOMES for b in (None, 1)]


# ---------------------------------------------------------------- the real code

def cases(rng):
    names = [None] + [o.__name__ for o in OUTCOMES[1:]]
    while True:
        yield dict(before=rng.choice([None, 0.0, 0.5, 3, 10, 11.25, 600]),
                   steps=[[rng.choice(['reverse_dns_lookup', 'dns_lookup']), rng.choice(names), rng.choice(['127.0.0.1', 'example.org', 'x'])] for _ in range(rng.choice([1, 2, 4]))])


def run_case(case):
    old = socket.gethostbyaddr, socket.getaddrinfo
    byname = {o.__name__: o for o in OUTCOMES[1:]}
    during = []
    try:
        socket.setdefaulttimeout(case['before'])
        for fname, outcome, arg in case['steps']:
            def gha(a, *r, **k):
                during.append(socket.getdefaulttimeout())
                if outcome: raise byname[outcome]('no')
                return ('host', ['h'], ['127.0.0.1'])
            def gai(a, *r, **k):
                during.append(socket.getdefaulttimeout())
                if outcome: raise byname[outcome]('no')
                return [(2, 1, 6, '', ('10.0.0.1', 80)), (2, 1, 6, '', ('10.0.0.2', 80))]
            socket.gethostbyaddr, socket.getaddrinfo = gha, gai
            del during[:]
            r = exc = None
            try: r = getattr(dnsutils, fname)(arg)
            except BaseException as e: exc = e
            if socket.getdefaulttimeout() != case['before']: return '%s, lookup %s: timeout %r afterwards, was %r' % (fname, outcome, socket.getdefaulttimeout(), case['before'])
            if during != [LIMIT] * len(during) or not during: return '%s: timeout during the lookup: %r' % (fname, during)
            empty = outcome == socket.timeout.__name__ or (outcome == 'herror' and fname == 'reverse_dns_lookup')
            if empty and (exc is not None or len(r) != 0): return '%s, lookup %s: %r %r, not empty' % (fname, outcome, r, exc)
            if outcome is None and (exc is not None or sorted(r) != (['host'] if fname[0] == 'r' else ['10.0.0.1', '10.0.0.2'])): return '%s: result %r %r' % (fname, r, exc)
    finally:
        socket.gethostbyaddr, socket.getaddrinfo = old
        socket.setdefaulttimeout(None)
    return None
