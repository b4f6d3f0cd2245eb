"""Histories of a file corpus against a reference, in the scratch directory."""
import fnmatch
import os
import shutil

NAMES = ['a', 'b', 'msg1', 'msg2', 'x.txt', 'y.txt', 'z', 'A', 'a b', '[a]', '.hidden', '-x', 'a.txt~', '*', 'ü']
SUFFIXES = ['.tmp', '.bak', '~', '.new', '.old', '.part', '.lock']
BAD = ['', '.', '..', '../evil', '../outside', 'a/b', 'sub/in', './a', 'a/', '/', '../corpus/a', '..//corpus/b', 'sub/../a', 'nul\0x', 'n' * 300]


def make_cases(rng):
    while True:
        names = rng.sample(NAMES, rng.randint(2, 5))
        if rng.random() < .3: names += [rng.choice(names) + x for x in rng.sample(SUFFIXES, 2)]
        ops = []
        for _ in range(rng.choice([2, 4, 8, 16])):
            r = rng.random()
            k = rng.choice(names) if rng.random() < .85 else rng.choice(BAD)
            body = 'S: %d\n\n%s' % (rng.randint(0, 99), rng.choice(['x', 'y' * 50, 'caf\u00e9', '']))
            flag = rng.choice([True, True, False, None])
            if r < .4: ops.append(['add', k, body, flag])
            elif r < .55: ops.append(['remove', k, flag])
            elif r < .6: ops.append(['create', rng.choice(names), body])
            elif r < .63: ops.append(['mkdir', rng.choice(names)])
            else: ops.append(['look', k, rng.choice(['get', 'default', 'item', 'in', 'len', 'iter', 'keys', 'values', 'items', 'repr'])])
        yield dict(filter=rng.choice(['*', '*', '*.txt', 'm*', '[!.]*', '?', 'a']), size=rng.choice([1, 1, 2, 3, 256]), ops=ops)


def snapshot(top):
    out = {}
    for base, dirs, files in os.walk(top):
        for d in dirs: out[os.path.join(base, d)] = None
        for f in files:
            with open(os.path.join(base, f), 'rb') as h: out[os.path.join(base, f)] = h.read()
    return out


def diff(want, got):
    for k in sorted(set(want) | set(got)):
        if k not in got: return '%r is gone' % k
        if k not in want: return '%r is new' % k
        if want[k] != got[k]: return '%r has %r, expected %r' % (k, got[k][:60] if got[k] else got[k], want[k][:60] if want[k] else want[k])


def run(case, focus):
    top = 'w'
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + '/corpus/sub')
    for n in ('outside', 'corpus/sub/in'):
        with open('%s/%s' % (top, n), 'wb') as f: f.write(b'keep')
    try: return history(case, focus, top)
    finally: shutil.rmtree(top, ignore_errors=True)


def history(case, focus, top):
    from sbclassifier.corpora import message_added, message_removed
    from sbclassifier.corpora.filesystem import FileCorpus
    from sbclassifier.message import from_bytes
    d = top + '/corpus'
    try: c = FileCorpus(d, namefilter=case['filter'], cache_size=case['size'])
    except Exception as e: return 'a new corpus raised %r' % (e,) if focus == 'files' else None
    other = FileCorpus(top, namefilter='nothing here')
    want = snapshot(top)
    messages = {}
    log = []
    def note(kind):
        def f(sender, message=None, **kw):
            log.append((kind, sender, message, snapshot(top)))
        return f
    on_add, on_remove = note('added'), note('removed')
    def valid(k): return k not in ('', '.', '..') and '/' not in k and '\0' not in k and len(k) < 200 and fnmatch.fnmatch(k, case['filter'])
    def isfile(k): return want.get(d + '/' + k) is not None
    def isdir(k): return d + '/' + k in want and not isfile(k)
    message_added.connect(on_add)
    message_removed.connect(on_remove)
    try:
        for i, op in enumerate(case['ops']):
            where = 'step %d %r: ' % (i, op[:2])
            k = op[1]
            del log[:]
            expect = []
            path = d + '/' + k
            if op[0] in ('create', 'mkdir'):
                if path in want or '\0' in k: continue
                if op[0] == 'mkdir':
                    os.mkdir(path)
                    want[path] = None
                else:
                    want[path] = op[2].encode()
                    with open(path, 'wb') as f: f.write(want[path])
                continue
            if op[0] == 'add':
                m = from_bytes(op[2].encode('utf-8'))
                if k: m.set_id(k)
                else: m = Fake(m, k)
                kw = {} if op[3] is None else dict(emit_signal=op[3])
                content = m.as_bytes()
                try: c.add_message(m, **kw)
                except Exception as e:
                    if focus == 'files' and valid(k) and not isdir(k): return where + 'raised %r' % (e,)
                else:
                    if focus == 'files' and (not valid(k) or isdir(k)): return where + 'an ID that is not valid was not refused'
                    if valid(k):
                        want[path] = content
                        messages[k] = m
                    if op[3] is not False: expect = [('added', m)]
            elif op[0] == 'remove':
                m = messages.pop(k, None)
                if m is None:
                    m = from_bytes(b'S: 1\n\n')
                    if not k: m = Fake(m, k)
                    else: m.set_id(k)
                kw = {} if op[2] is None else dict(emit_signal=op[2])
                try: c.remove_message(m, **kw)
                except Exception as e:
                    if focus == 'files' and valid(k): return where + 'raised %r' % (e,)
                    if isfile(k) and valid(k): messages[k] = m
                else:
                    if valid(k) and isfile(k): del want[path]
                    if op[2] is not False: expect = [('removed', m)]
            else:
                keys = sorted(n[len(d) + 1:] for n in want if want[n] is not None and n.startswith(d + '/') and valid(n[len(d) + 1:]))
                f = look(c, op[2], k, keys, lambda n: want[d + '/' + n], focus)
                if f and focus == 'view': return where + f
            if focus == 'files':
                f = diff(want, snapshot(top))
                if f: return where + f
                if op[0] != 'look' and not (valid(k) and isfile(k)):
                    try: v = c.get(k)
                    except Exception: v = None
                    if v is not None: return where + 'a message that has no file is remembered'
            if focus == 'signals':
                got = [(x[0], x[2]) for x in log]
                if len(got) != len(expect) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(got, expect)):
                    return where + 'notifications %r, expected %r' % ([x[0] for x in log], [x[0] for x in expect])
                for kind, sender, m, files in log:
                    if sender is not c: return where + 'the notification is not from this corpus'
                    if valid(k) and (path in files and files[path] is not None) != (kind == 'added'): return where + 'notified before the change'
    finally:
        message_added.disconnect(on_add)
        message_removed.disconnect(on_remove)


class Fake:
    """A message with an ID that Message would not take."""
    def __init__(self, m, k): self.m, self.k = m, k
    def id(self): return self.k
    def as_bytes(self): return self.m.as_bytes()


def look(c, how, k, keys, content, focus):
    try:
        if how in ('get', 'default', 'item'):
            default = object()
            try: m = c.get(k) if how == 'get' else c.get(k, default) if how == 'default' else c[k]
            except KeyError:
                if how != 'item' or k in keys: return 'KeyError'
                return
            if k not in keys:
                if how == 'item': return 'an unknown ID gives %r' % (m,)
                if m is not (None if how == 'get' else default): return 'an unknown ID does not give the default'
                return
            return message(m, k, content)
        if how == 'in':
            if (k in c) != (k in keys): return 'membership %r' % (k in c)
        elif how == 'len':
            if len(c) != len(keys): return 'length %d, expected %d' % (len(c), len(keys))
        elif how in ('iter', 'keys'):
            got = sorted(c if how == 'iter' else c.keys())
            if got != keys: return '%s gives %r, expected %r' % (how, got, keys)
        elif how == 'values':
            vs = list(c.values())
            if sorted(m.id() for m in vs) != keys: return 'values have IDs %r, expected %r' % (sorted(m.id() for m in vs), keys)
            for m in vs:
                f = message(m, m.id(), content)
                if f: return f
        elif how == 'items':
            it = list(c.items())
            if sorted(x for x, _ in it) != keys: return 'items have keys %r, expected %r' % (sorted(x for x, _ in it), keys)
            for x, m in it:
                f = message(m, x, content)
                if f: return f
        elif how == 'repr':
            if ('%d message' % len(keys)) not in repr(c): return 'repr %r, %d messages expected' % (repr(c), len(keys))
    except Exception as e: return '%s raised %r' % (how, e)


def message(m, k, content):
    if m.id() != k: return 'the message has ID %r, expected %r' % (m.id(), k)
    from sbclassifier.message import from_bytes
    want = content(k)
    if m.as_bytes() != want and m.as_bytes() != from_bytes(want).as_bytes(): return 'the message %r has content %r, expected %r' % (k, m.as_bytes()[:60], want[:60])
