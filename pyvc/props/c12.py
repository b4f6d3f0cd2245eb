"""What a pickled classifier stores it finds again."""
from .picklelib import *
from .. import harvest

ASSUMPTIONS = ASSUMPTIONS_DISK + ['words are opaque hashable values that pickle copies; totals and counts are integers; one thread']
TRUSTED = TRUSTED_DISK
TOUCHES_FILES = True


def record():
    def run(vc):
        heap_init(vc)
        cx = vc.cx
        s, h = z3.Int('s'), z3.Int('h')
        a = vc.call(WordInfo)
        vc.method(a, '__setstate__', (SInt(s), SInt(h)))
        state = vc.method(a, '__getstate__')
        b = vc.call(WordInfo)
        r, exc = vc.attempt(lambda: vc.method(b, '__setstate__', state))
        vc.prove('no exception', exc is None)
        for x in (a, b):
            vc.prove('counts', z3.And(ops.intterm(vc.i.getattr_(x, 'spamcount')) == s, ops.intterm(vc.i.getattr_(x, 'hamcount')) == h))
        vc.cover('end')
    return dict(name='a record', fn=run, covers=['end'])


def store_load(how):
    def run(vc):
        cx = vc.cx
        heap_init(vc)
        disk = PickleDisk(vc, OLD, None)
        a = sym_pickled(vc, disk, 'A')
        b = sym_pickled(vc, disk, 'B') if how != 'open' else None
        st = MemState(cx, a)
        assume_valid_cache(vc, a, lambda p, s, h: p == spec_prob(s, h, st.nspam, st.nham))
        r, exc = vc.attempt(lambda: vc.method(a, 'store'))
        vc.prove('storing raises nothing', exc is None)
        if exc is not None: return
        if how == 'open': same_as(vc, a, st.dom, lambda t: st.spam(t), lambda t: st.ham(t), st.nspam, st.nham, 'storing changes nothing: ')
        if how == 'open': b, exc = vc.attempt(lambda: vc.call(PickleClassifier, SStr(disk.path, str)))
        elif how == 'same': b, exc = a, vc.attempt(lambda: vc.method(a, 'load'))[1]
        else: exc = vc.attempt(lambda: vc.method(b, 'load'))[1]
        vc.prove('loading raises nothing', exc is None)
        if exc is not None: return
        same_as(vc, b, st.dom, lambda t: st.spam(t), lambda t: st.ham(t), st.nspam, st.nham)
        vc.cover('end')
    return dict(name='store, then %s' % {'open': 'open the file', 'other': 'load into a classifier in another state', 'same': 'load again'}[how], fn=run, covers=['end'])


def missing(how):
    def run(vc):
        heap_init(vc)
        disk = PickleDisk(vc, ABSENT, None)
        if how == 'open': b, exc = vc.attempt(lambda: vc.call(PickleClassifier, SStr(disk.path, str)))
        else:
            b = sym_pickled(vc, disk, 'B')
            exc = vc.attempt(lambda: vc.method(b, 'load'))[1]
        vc.prove('no exception', exc is None)
        if exc is not None: return
        same_as(vc, b, **NOTHING)
        vc.prove('nothing is written', z3.BoolVal(disk.content['target'] == ABSENT))
        vc.cover('end')
    return dict(name='%s of a missing file' % how, fn=run, covers=['end'])


def version(how):
    def run(vc):
        cx = vc.cx
        heap_init(vc)
        disk = PickleDisk(vc, OLD, None)
        r, ns, nh = stored_state(vc, disk)
        v = z3.Int('version')
        ver = SInt(v)
        if not isinstance(basic_.PICKLE_VERSION, int): raise Unsupported('format version')
        vc.assume(v != basic_.PICKLE_VERSION)
        disk.content['target'] = ('new', (PickleClassifier, ver, r, SInt(ns), SInt(nh)))
        disk.old = disk.content['target']
        if how == 'open': b, exc = vc.attempt(lambda: vc.call(PickleClassifier, SStr(disk.path, str)))
        else:
            b = sym_pickled(vc, disk, 'B')
            b, exc = vc.attempt(lambda: vc.method(b, 'load'))
        vc.prove('refused with an error', exc is not None)
        vc.prove('nothing is written', z3.BoolVal(disk.content['target'] == disk.old))
        vc.cover('end')
    return dict(name='%s of a file of another version' % how, fn=run, covers=['end'])


def targets(tier):
    return [record()] + [store_load(h) for h in ('open', 'other', 'same')] + [f(h) for f in (missing, version) for h in ('open', 'load')]


# ---------------------------------------------------------------- the real code

def cases(rng):
    words = ['a', 'b', 'Viagra', '', 'saved state', 'x' * 300, '\xe9', '\ud800', 'b:a', ':1', 's:b']
    while True:
        ops_ = []
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            if r < .45: ops_.append(['learn', rng.randrange(2), [rng.choice(words) for _ in range(rng.randint(0, 4))], rng.random() < .5])
            elif r < .55: ops_.append(['unlearn', rng.randrange(2), rng.randrange(8)])
            elif r < .7: ops_.append(['store', rng.randrange(2)])
            elif r < .8: ops_.append(['load', rng.randrange(2)])
            elif r < .9: ops_.append(['open', rng.randrange(2)])
            elif r < .91: ops_.append(['delete'])
            elif r < .93:
                n = harvest.near(rng, 'sbclassifier.classifiers.basic', 'sbclassifier.classifiers.storage', 'sbclassifier.safepickle', high=70000)
                if n: ops_ += [['many', rng.randrange(2), n, rng.random() < .5], ['store', 0], ['store', 1], ['load', 0], ['load', 1]]
            elif r < .96: ops_.append(['version', rng.randrange(2), rng.choice([0, 4, 6, 99, 'x', -1, 5.5])])
            else: ops_.append(['score', rng.randrange(2)])
        yield dict(ops=ops_, bytes=rng.random() < .4)


def state_of(c): return (c.nspam, c.nham, {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()})


def run_case(case):
    import copy
    d = 'w'
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    name = d + '/f.pck'
    probe = ['a', 'b', '\xe9', 'Viagra']
    if case['bytes']: probe = [w.encode() for w in probe]
    def scores(st):
        from sbclassifier.classifiers.basic import Classifier
        f = Classifier()
        f.nspam, f.nham = st[0], st[1]
        for w, (s, h) in st[2].items():
            f.wordinfo[w] = WordInfo(s, h)
        return f.spamprob(probe)
    try:
        cs = [PickleClassifier(name), PickleClassifier(name)]
        kept = None
        trained = [[], []]
        for i, op in enumerate(case['ops']):
            where = 'after %r: ' % (case['ops'][:i + 1],)
            o = op[0]
            want = [copy.deepcopy(state_of(c)) for c in cs]
            if o == 'learn':
                ws = [w.encode('utf-8', 'surrogatepass') for w in op[2]] if case['bytes'] else op[2]
                cs[op[1]].learn(ws, op[3])
                trained[op[1]].append((ws, op[3]))
                want[op[1]] = None
            elif o == 'many':
                ws = ['many%d' % j for j in range(op[2])]
                if case['bytes']: ws = [w.encode() for w in ws]
                cs[op[1]].learn(ws, op[3])
                trained[op[1]].append((ws, op[3]))
                want[op[1]] = None
            elif o == 'unlearn':
                if not trained[op[1]]: continue
                ws, s = trained[op[1]].pop(op[2] % len(trained[op[1]]))
                cs[op[1]].unlearn(ws, s)
                want[op[1]] = None
            elif o == 'store':
                cs[op[1]].store()
                kept = want[op[1]]
                keeper = list(trained[op[1]])
            elif o in ('load', 'open'):
                if o == 'load': cs[op[1]].load()
                else: cs[op[1]] = PickleClassifier(name)
                want[op[1]] = kept if kept is not None else (0, 0, {})
                trained[op[1]] = list(keeper) if kept is not None else []
            elif o == 'delete':
                if kept is None: continue
                os.remove(name)
                kept = None
            elif o == 'version':
                from unittest import mock
                with mock.patch('sbclassifier.classifiers.basic.PICKLE_VERSION', op[2]): cs[op[1]].store()
                for how in ('load', 'open'):
                    try:
                        if how == 'load': cs[op[1]].load()
                        else: PickleClassifier(name)
                    except Exception: pass
                    else: return where + '%s of version %r was not refused' % (how, op[2])
                os.remove(name)
                kept = None
            elif o == 'score':
                cs[op[1]].spamprob(probe)
            for j, c in enumerate(cs):
                if want[j] is None: continue
                if state_of(c) != want[j]: return where + 'classifier %d has %r, not %r' % (j, state_of(c), want[j])
                if any(type(x) is not type(y) for x, y in zip(sorted(map(repr, c.wordinfo)), sorted(map(repr, want[j][2])))): return where + 'words'
                if o != 'learn' and o != 'unlearn':
                    if c.spamprob(probe) != scores(want[j]): return where + 'score %r, not %r' % (c.spamprob(probe), scores(want[j]))
            if sorted(os.listdir(d)) != ([os.path.basename(name)] if kept is not None else []): return where + 'files %r' % (sorted(os.listdir(d)),)
    except Exception as e: return 'raised %r' % (e,)
    finally: shutil.rmtree(d, ignore_errors=True)
    return None
