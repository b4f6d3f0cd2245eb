"""IP clues name the networks that enclose an address."""
import ipaddress
from .lib import *
from .. import models

from sbclassifier import iputils

ASSUMPTIONS = [
    'addresses are IPv4 addresses, as text or as IPv4Address, and prefix lengths are integers from 0 to 32; '
    'anything else is outside the property',
]
TRUSTED = ['ipaddress: ip_network of an address and a prefix length, not strict, is the network of that length that '
           'contains the address, and raises ValueError if strict and the address has host bits; an address alone '
           'is its network of length 32; str() of an address is its dotted form']

S = z3.StringSort()
dotted = z3.Function('dotted', I, S)          # the text of an address
netbase = z3.Function('netbase', I, I, I)     # the first address of the network of a length that contains an address
nettext = z3.Function('nettext', I, I, S)     # the text of a network


class Address(Ext):
    pytype = ipaddress.IPv4Address
    def __init__(self, a):
        super().__init__('address')
        self.a = a
    def subst(self, pairs): return Address(z3.substitute(self.a, *pairs))
    def m___str__(self, interp, a, kw): return SStr(dotted(self.a), str)
    def m___int__(self, interp, a, kw): return SInt(self.a)
    def a_exploded(self, interp): return SStr(dotted(self.a), str)
    def a_compressed(self, interp): return SStr(dotted(self.a), str)


class Network(Ext):
    pytype = ipaddress.IPv4Network
    def __init__(self, base, length):
        super().__init__('network')
        self.base, self.length = base, length
    def subst(self, pairs): return Network(z3.substitute(self.base, *pairs), z3.substitute(self.length, *pairs))
    def m___str__(self, interp, a, kw): return SStr(nettext(self.base, self.length), str)
    def a_prefixlen(self, interp): return SInt(self.length)
    def a_with_prefixlen(self, interp): return self.m___str__(interp, [], {})
    def a_exploded(self, interp): return self.m___str__(interp, [], {})
    def a_compressed(self, interp): return self.m___str__(interp, [], {})
    def a_network_address(self, interp): return Address(self.base)


def flatten(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in flatten(c)]
    return [t]


def find_ite(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return t
    for x in t.children():
        r = find_ite(x)
        if r is not None: return r


def parse(s):
    """(address term, prefix length or None) of the text of a network."""
    t = z3.simplify(ops.strterm(s))
    while True:
        i = find_ite(t)
        if i is None: break
        t = z3.simplify(z3.substitute(t, (i, i.arg(1) if core.cx().branch(i.arg(0)) else i.arg(2))))
    parts = flatten(t)
    merged = []
    for p in parts:
        if z3.is_string_value(p) and merged and isinstance(merged[-1], str): merged[-1] += p.as_string()
        else: merged.append(p.as_string() if z3.is_string_value(p) else p)
    if not merged or isinstance(merged[0], str) or merged[0].decl().name() != 'dotted':
        raise Unsupported('text of a network: %s' % (merged,))
    a = merged[0].arg(0)
    if len(merged) == 1: return a, None
    if len(merged) == 2 and isinstance(merged[1], str) and merged[1][0] == '/' and merged[1][1:].isdigit(): return a, z3.IntVal(int(merged[1][1:]))
    if len(merged) == 3 and merged[1] == '/' and not isinstance(merged[2], str):
        t = merged[2]
        for x in [t] + t.children():
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_INT_TO_STR: return a, x.arg(0)
        n = int_of_str(t)
        if n is not None: return a, n
    raise Unsupported('text of a network: %s' % (merged,))


def int_of_str(t):
    """n if t is int_to_str(n)."""
    found = []
    def walk(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_INT_TO_STR: found.append(x.arg(0))
        else:
            for y in x.children(): walk(y)
    walk(t)
    for n in found:
        if z3.simplify(ops.int_to_str(n)).eq(t): return n
    return None


def network(vc):
    def ip_network(interp, args, kw):
        strict = force(kw.get('strict', args[1] if len(args) > 1 else True))
        v = force(args[0] if args else kw['address'])
        if isinstance(v, PyList) and not v.symbolic: v = tuple(v.items)
        if isinstance(v, tuple):
            if len(v) == 1: a, n = address_of(v[0]), None
            else: a, n = address_of(v[0]), ops.intterm(force(v[1]))
        elif isinstance(v, Address): a, n = v.a, None
        elif isinstance(v, Network): a, n = v.base, v.length
        else: a, n = parse(v)
        if n is None: n = z3.IntVal(32)
        c = core.cx()
        if not c.branch(z3.And(n >= 0, n <= 32)): ops.raise_(ipaddress.NetmaskValueError, 'prefix length')
        if interp.truth(strict) and not c.branch(netbase(a, n) == a): ops.raise_(ValueError, 'has host bits set')
        return Network(netbase(a, n), n)
    def ip_address(interp, args, kw):
        v = force(args[0])
        return Address(address_of(v))
    def ip_interface(interp, args, kw):
        net = ip_network(interp, list(args), dict(kw, strict=False))
        class Interface(Address):
            pytype = ipaddress.IPv4Interface
            def a_network(self, interp): return net
        return Interface(net.base)
    m = vc.i.models
    for f in (ipaddress.ip_network, ipaddress.IPv4Network): m[id(f)] = ip_network
    for f in (ipaddress.ip_address, ipaddress.IPv4Address): m[id(f)] = ip_address
    for f in (ipaddress.ip_interface, ipaddress.IPv4Interface): m[id(f)] = ip_interface


def address_of(v):
    v = force(v)
    if isinstance(v, Address): return v.a
    if isinstance(v, SInt): return v.t
    a, n = parse(v)
    return a


def start(vc, kind):
    network(vc)
    a = z3.Int('a')
    vc.assume(z3.And(a >= 0, a < 2 ** 32))
    vc.fact((I, I), lambda x, y: z3.And(netbase(x, y) >= 0, netbase(x, y) <= x) if x.sort() == I else None)
    return a, Address(a) if kind == 'object' else SStr(dotted(a), str)


def wanted(lengths):
    """(number, index -> length) of the lengths asked for."""
    if lengths is None: lengths = (8, 16, 24, 32)
    if isinstance(lengths, PyList): return lengths.length(), lambda i: ops.intterm(lengths.get(i))
    f = lambda i: fold(i, [z3.IntVal(x) for x in lengths])
    return z3.IntVal(len(lengths)), f


def fold(i, xs):
    r = xs[-1]
    for j, x in list(enumerate(xs))[-2::-1]: r = z3.If(i == j, x, r)
    return r


def nets(kind, how):
    def run(vc):
        a, addr = start(vc, kind)
        lengths = None
        args, kw = [], {}
        if how in ('a list', 'a generator'):
            n = z3.Int('n')
            g = z3.Function('len_at', I, I)
            vc.assume(n >= 0)
            vc.fact(IDX, lambda i: z3.And(g(i) >= 0, g(i) <= 32))
            lengths = PyList(n=n, get=memo1(lambda i: SInt(g(i))), site='lengths')
            kw['prefix_lengths'] = lengths
        elif how == 'an empty list':
            lengths = ()
            kw['prefix_lengths'] = PyList([])
        elif how == 'None': kw['prefix_lengths'] = None
        r, exc = vc.attempt(lambda: models.to_pylist(vc.i, vc.call(iputils.subnets, addr, *args, **kw), 'networks'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        n, at = wanted(lengths if how != 'an empty list' else PyList([]))
        vc.prove('one network for each length', r.length() == n)
        if how != 'an empty list':
            def same(i):
                e = force(r.get(i))
                if not isinstance(e, Network): return z3.BoolVal(False)
                return z3.Implies(z3.And(i >= 0, i < n), z3.And(e.base == netbase(a, at(i)), e.length == at(i)))
            elements(vc, 'the network of that length', r, same)
        vc.cover('end')
    return dict(name='subnets of an address as %s, lengths %s' % (kind, how), fn=run, covers=['end'])


def elements(vc, name, r, f):
    if r.symbolic: vc.prove(name, f, I)
    else:
        for i in range(len(r.items)): vc.prove('%s (%d)' % (name, i), f(z3.IntVal(i)))


def clues(kind):
    def run(vc):
        a, addr = start(vc, kind)
        p = z3.String('prefix')
        r, exc = vc.attempt(lambda: models.to_pylist(vc.i, vc.call(iputils.gen_dotted_quad_clues, SStr(p, str), addr), 'clues'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        n, at = wanted(None)
        vc.prove('four clues', r.length() == n)
        def same(i):
            return z3.Implies(z3.And(i >= 0, i < n), ops.strterm(force(r.get(i))) == z3.Concat(p, z3.StringVal(':'), nettext(netbase(a, at(i)), at(i))))
        elements(vc, 'prefix, colon, network', r, same)
        vc.cover('end')
    return dict(name='clues of an address as %s' % kind, fn=run, covers=['end'])


def targets(tier):
    return [nets(k, h) for k in ('text', 'object') for h in ('not given', 'None', 'a list', 'an empty list')] + [clues(k) for k in ('text', 'object')]


# ---------------------------------------------------------------- the real code

def cases(rng):
    while True:
        r = rng.random()
        a = rng.choice([0, 2 ** 32 - 1, 1, 0x7f000001, 0x0a000000, 0xffffff00, 0x80000000]) if r < 0.2 else rng.randrange(2 ** 32)
        l = rng.choice([None, [], None, [rng.randint(0, 32)], [rng.randint(0, 32) for _ in range(rng.randint(1, 6))], list(range(33))])
        yield dict(address=a, obj=rng.random() < 0.5, lengths=l, prefix=rng.choice(['x', 'url-ip', '', 'a:b', '{}']), gen=rng.random() < 0.2)


def run_case(case):
    a = case['address']
    text = '.'.join(str(a >> s & 255) for s in (24, 16, 8, 0))
    addr = ipaddress.IPv4Address(a) if case['obj'] else text
    def net(n):
        b = a >> (32 - n) << (32 - n)
        return '.'.join(str(b >> s & 255) for s in (24, 16, 8, 0)) + '/%d' % n
    try:
        ls = case['lengths']
        got = list(iputils.subnets(addr)) if ls is None else list(iputils.subnets(addr, iter(ls) if case['gen'] else list(ls)))
        want = [net(n) for n in ([8, 16, 24, 32] if ls is None else ls)]
        if [str(x) for x in got] != want: return 'networks of %s for %r: %s' % (text, ls, [str(x) for x in got])
        if any(not isinstance(x, ipaddress.IPv4Network) for x in got): return 'not networks: %r' % (got,)
        got = list(iputils.gen_dotted_quad_clues(case['prefix'], addr))
        want = [case['prefix'] + ':' + net(n) for n in (8, 16, 24, 32)]
        if got != want: return 'clues of %s: %r' % (text, got)
    except Exception as e: return 'networks of %s for %r: raised %r' % (text, case['lengths'], e)
    return None
