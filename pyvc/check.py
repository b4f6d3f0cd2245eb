"""Decides one property: python -m pyvc.check C01 [--tier quick|thorough] [--replay FILE]

1. The targets of the property (contracts on the functions in /repo) are
   explored and every obligation is handed to the solvers.
2. Meanwhile a short audit runs the real code on random inputs against the
   same specification (it checks the assumed contracts and the models).
3. An obligation that is not discharged starts a longer concrete search.

"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'evidence', 'replay')
CTX = mp.get_context('fork')


def limit(gb):
    try: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError): pass


# ---------------------------------------------------------------- proofs

def prove_one(spec, budget, conn):
    """Runs one target in a process of its own."""
    limit(8)
    sys.setrecursionlimit(20000)
    from pyvc.engine import Engine
    from pyvc import core
    name, fn = spec['name'], spec['fn']
    out = dict(name=name)
    try:
        e = Engine(budget=budget)
        for k, v in spec.get('opts', {}).items(): setattr(e, k, v)
        r = e.run(name, fn, spec.get('covers', ()))
        out.update(status=r.status, detail=str(r.detail)[:2000], obligations=r.obligations, paths=r.paths,
                   wall=round(r.wall, 2), solver=round(e.solver_time, 2), queries=e.queries, restarts=r.restarts,
                   backends=e.backends, functions=sorted(e.functions), contracts=sorted(e.contracts),
                   assumptions=sorted(getattr(e, 'assumptions', ())),
                   invariants=sorted('%s: %s' % k for k in e.invs), drops=[list(map(str, d)) for d in e.drops][:40],
                   gave_up=[d[1] for d in e.gave_up()], patient=getattr(r, 'patient', False),
                   covers=r.covers, ends=dict(e.ends), trace=getattr(r, 'trace', '')[-3000:])
    except BaseException as x:
        out.update(status='unsupported', detail='internal: %r' % (x,), obligations=[], paths=0, wall=0, solver=0,
                   queries=0, restarts=0, backends={}, functions=[], contracts=[], assumptions=[], invariants=[],
                   drops=[], covers={}, trace=traceback.format_exc()[-3000:])
    conn.send(out)
    conn.close()
    os._exit(0)


def prove_all(specs, budget, workers):
    todo = list(enumerate(specs))
    running = {}
    results = [None] * len(specs)
    while todo or running:
        while todo and len(running) < workers:
            i, s = todo.pop(0)
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=prove_one, args=(s, budget, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t0) in list(running.items()):
            done = False
            if a.poll(0.01):
                try: results[i] = a.recv()
                except EOFError: results[i] = None
                done = True
            elif not p.is_alive():
                done = True
            elif time.time() - t0 > budget + 20:
                p.kill()
                done = True
            if done:
                p.join(2)
                if p.is_alive(): p.kill()
                del running[i]
                if results[i] is None:
                    results[i] = dict(name=specs[i]['name'], status='unsupported', detail='no answer within the budget',
                                      obligations=[], paths=0, wall=round(time.time() - t0, 1), solver=0, queries=0, restarts=0,
                                      backends={}, functions=[], contracts=[], assumptions=[], invariants=[], drops=[],
                                      covers={}, trace='')
        time.sleep(0.01)
    return results


# ---------------------------------------------------------------- concrete search

def drop_privileges():
    if os.getuid() != 0: return True
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        return True
    except OSError:
        return False


#: what contain() has refused: (event, path)
BLOCKED = []


def contain(scratch):
    """From now on, this process can change files under scratch only: any
    other change is refused before it happens, and recorded."""
    root = os.path.realpath(scratch)
    paths = {'os.remove': (0, 1), 'os.rename': (0, 1), 'os.mkdir': (0,), 'os.rmdir': (0,), 'os.link': (0, 1), 'os.symlink': (1,),
             'os.truncate': (0,), 'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,), 'shutil.rmtree': (0,), 'shutil.move': (0, 1),
             'shutil.copyfile': (1,), 'os.setxattr': (0,), 'os.removexattr': (0,)}
    never = {'subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.kill', 'os.killpg', 'os.fork', 'os.forkpty',
             'socket.connect', 'socket.bind', 'ctypes.dlopen', 'os.putenv.x'}
    names = {'os.remove': 'path'}
    def inside(p):
        if isinstance(p, int): return True
        if p is None: return True
        if isinstance(p, bytes): p = os.fsdecode(p)
        p = os.fspath(p)
        q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(os.path.abspath(p)))
        return q == root or q.startswith(root + os.sep)
    busy = []
    def hook(event, args):
        if busy: return
        if event == 'open':
            path, mode, flags = args[:3]
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND): return
            which = (0,)
        elif event in paths: which = paths[event]
        elif event in never: which = ()
        else: return
        busy.append(1)
        try:
            ok = bool(which) and all(inside(args[i]) for i in which if i < len(args) and isinstance(args[i], (str, bytes, os.PathLike)))
            if event == 'open' and path in ('/dev/null',): ok = True
        finally: busy.pop()
        if not ok:
            BLOCKED.append((event, repr(args[:2])))
            raise PermissionError('contained: %s %r' % (event, args[:2]))
    sys.addaudithook(hook)


def search_child(pid, seed, seconds, maxcases, replay, conn):
    limit(8)
    import logging
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    out = dict(cases=0, distinct=0, failure=None, samples=[], kinds={})
    scratch = tempfile.mkdtemp(prefix='pyvc-%s-' % pid)
    conn.send(('scratch', scratch))
    try:
        m = importlib.import_module('pyvc.props.' + pid.lower())
        os.chmod(scratch, 0o777)
        drop_privileges()
        contain(scratch)
        os.chdir(scratch)
        tempfile.tempdir = scratch
        os.environ['HOME'] = scratch
        if replay is not None:
            cases = iter([replay])
        else:
            cases = m.cases(random.Random(seed))
        end = time.time() + seconds
        seen = set()
        last = 0
        for case in cases:
            if time.time() > end or out['cases'] >= maxcases: break
            out['cases'] += 1
            conn.send(('case', case))
            f = m.run_case(case)
            k = json.dumps(case, sort_keys=True, default=repr)
            if k not in seen:
                seen.add(k)
                out['distinct'] += 1
                if len(out['samples']) < 3: out['samples'].append(json.loads(json.dumps(case, default=repr)))
            if f:
                out['failure'] = dict(case=case, what=str(f))
                break
    except BaseException as x:
        # an exception that no oracle expects: the oracle must catch those of
        # the code under test; this one is an error of the search
        out['error'] = traceback.format_exc()[-2500:]
    try: shutil.rmtree(scratch)
    except OSError: pass
    conn.send(('done', out))
    conn.close()
    os._exit(0)


def search(pid, seed, seconds, maxcases=10 ** 9, replay=None, case_limit=60):
    """Runs the real code on cases; in a process of its own."""
    a, b = CTX.Pipe(False)
    p = CTX.Process(target=search_child, args=(pid, seed, seconds, maxcases, replay, b))
    p.start()
    b.close()
    scratch = None
    case = None
    t0 = time.time()
    tcase = t0
    res = None
    while True:
        try:
            if a.poll(0.2):
                kind, v = a.recv()
                if kind == 'done':
                    res = v
                    break
                if kind == 'scratch': scratch = v
                if kind == 'case':
                    case = v
                    tcase = time.time()
            elif time.time() - tcase > case_limit:
                p.kill()
                res = dict(cases=0, distinct=0, samples=[], failure=None)
                if case is not None:
                    res['failure'] = dict(case=case, what='no result within %d s' % case_limit)
                break
        except EOFError:
            res = dict(cases=0, distinct=0, samples=[], failure=None, error='the search ended early')
            break
    p.join(2)
    if p.is_alive(): p.kill()
    if scratch and os.path.isdir(scratch): shutil.rmtree(scratch, ignore_errors=True)
    res['seconds'] = round(time.time() - t0, 1)
    return res


def search_many(pid, seed, seconds, workers):
    """The same search with several seeds at once; the first failure counts."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(lambda i: search(pid, seed * 1000 + i, seconds), range(workers)))
    tot = dict(cases=sum(r['cases'] for r in rs), distinct=sum(r['distinct'] for r in rs), failure=None,
               samples=rs[0]['samples'], seconds=max(r['seconds'] for r in rs))
    for r in rs:
        if r.get('error'): tot['error'] = r['error']
        if r.get('skipped'): tot['skipped'] = r['skipped']
        if r['failure'] and not tot['failure']: tot['failure'] = r['failure']
    return tot


# ---------------------------------------------------------------- main

def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid): out.append(line.split(' ', 2)[2])
    return out


def write_replay(pid, data):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, '%s.json' % pid)
    with open(path, 'w') as f: json.dump(data, f, indent=1, default=repr)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED') or '1')
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    if a.replay:
        data = json.load(open(a.replay))
        if data.get('case') is None:
            print('no failing input in this file: the failed obligations are listed in it')
            return 0
        r = search(pid, seed, 60, 1, data['case'])
        print(r['failure']['what'] if r.get('failure') else 'does not fail: %s' % r.get('error', ''))
        return 1 if r.get('failure') else 0
    workers = min(8, os.cpu_count() or 1)
    error = None
    try:
        m = importlib.import_module('pyvc.props.' + pid.lower())
        specs = m.targets(tier)
    except BaseException:
        # the code under test cannot be imported, or a target names something
        # that is not there any more
        m, specs = None, []
        error = traceback.format_exc()
    if a.only: specs = [s for s in specs if a.only in s['name']]
    budget = getattr(m, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 600)
    from concurrent.futures import ThreadPoolExecutor
    audit_s = getattr(m, 'AUDIT', {}).get(tier, 6 if tier == 'quick' else 60)
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(search, pid, seed, audit_s) if hasattr(m, 'cases') and not a.only else None
        results = prove_all(specs, budget, workers - 1 if fut else workers)
        audit = fut.result() if fut else None
    proved = bool(results) and all(r['status'] == 'proved' for r in results)
    obligations = sum(len(r['obligations']) for r in results)
    discharged = sum(1 for r in results for o in r['obligations'] if o['status'] == 'proved')
    failed = [dict(target=r['name'], **o) for r in results for o in r['obligations'] if o['status'] != 'proved']
    refuted = [o for o in failed if o['status'] == 'refuted']
    open_ = [r for r in results if r['status'] != 'proved']
    failure = audit['failure'] if audit else None
    deep = None
    if not proved and failure is None and hasattr(m, 'cases') and not a.only:
        secs = getattr(m, 'SEARCH', {}).get(tier, 60 if tier == 'quick' else 240)
        deep = search_many(pid, seed + 1, secs, workers)
        failure = deep['failure']
    if a.verbose:
        for r in results:
            if r.get('gave_up'): print('GAVE UP', r['gave_up'])
            if r.get('patient'): print('PATIENT')
            print(r['name'], r['status'], r['detail'], 'paths', r['paths'], 'wall', r['wall'], 'obl', len(r['obligations']))
            if r['status'] != 'proved':
                print(r['trace'][-1500:])
                for d in r['drops']: print('   dropped', d)
            for o in r['obligations']:
                if o['status'] != 'proved': print('   ', str(o)[:1500])
        print('audit', {k: v for k, v in (audit or {}).items() if k != 'samples'})
        print('search', {k: v for k, v in (deep or {}).items() if k != 'samples'})
        if error: print(error)
    violation = None
    findings = known_findings(pid)
    if failure is not None:
        sig = None
        for f in findings:
            key = f.split('|')[0].strip()
            if key and key in failure['what']: sig = f
        if sig is None:
            path = write_replay(pid, dict(property=pid, case=failure['case'], what=failure['what'],
                                          failed_obligations=failed[:20], undecided=[dict(target=r['name'], status=r['status'], detail=r['detail']) for r in open_],
                                          replay_cmd='./run.sh -m pyvc.check %s --replay <this file>' % pid))
            violation = 'VIOLATION property=%s replay=%s' % (pid, path)
    elif refuted:
        path = write_replay(pid, dict(property=pid, case=None, failed_obligations=failed[:20],
                                      undecided=[dict(target=r['name'], status=r['status'], detail=r['detail']) for r in open_]))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)
    for f in findings: print('KNOWN-FINDING: property=%s %s' % (pid, f))
    # evidence
    assumptions = list(getattr(m, 'ASSUMPTIONS', []))
    for r in results: assumptions += r['assumptions']
    bk = {}
    for r in results:
        for k, v in r['backends'].items(): bk[k] = bk.get(k, 0) + v
    bounded = [r for r in results if r['status'] != 'proved']
    level = getattr(m, 'LEVEL', 'proof')
    cov = dict(obligations=obligations, discharged=discharged,
               checker_cmd='./run.sh -m pyvc.check %s --tier %s' % (pid, tier),
               trusted_base=['pyvc: the interpreter and verification condition generator in /verif/pyvc (a model of the semantics of Python)',
                             'z3 (python3-vt) and, where z3 gives no answer, cvc5'] + sorted(set(getattr(m, 'TRUSTED', []))),
               all_proved=proved, targets=[{k: r[k] for k in ('name', 'status', 'detail', 'paths', 'wall', 'solver', 'queries', 'restarts')}
                                           | dict(obligations=len(r['obligations'])) for r in results],
               functions_under_contract=sorted({f for r in results for f in r['functions']}),
               contracts_used=sorted({f for r in results for f in r['contracts']}),
               loop_invariants=sorted({i for r in results for i in r['invariants']}),
               loops_that_end=sorted({'%s: %s decreases and is not negative' % x if x[1] else '%s: not proved' % x[0] for r in results for x in r.get('ends', {}).items()}),
               backends=bk, solver_s=round(sum(r['solver'] for r in results), 2),
               reached={r['name']: r['covers'] for r in results},
               bounded=[dict(target=r['name'], why=r['detail'] or r['status'],
                             stand_in='the concrete search below, not a proof') for r in bounded],
               bounded_functions=list(getattr(m, 'BOUNDED', [])))
    cases = sum(x['cases'] for x in (audit, deep) if x)
    distinct = sum(x['distinct'] for x in (audit, deep) if x)
    cov['evaluations'] = cases
    cov['distinct_nontrivial'] = distinct
    cov['rule'] = getattr(m, 'RULE', 'random cases against the specification, run on the real code; distinct as written out')
    cov['samples'] = ((audit or {}).get('samples') or [])[:3]
    cov['audit'] = {k: v for k, v in (audit or {}).items() if k not in ('samples',)}
    if deep: cov['search'] = {k: v for k, v in deep.items() if k not in ('samples',)}
    if error: cov['error'] = error[-2000:]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted(set(assumptions)),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s: %d of %d obligations discharged, %d of %d targets proved, %d concrete cases, %.1f s'
          % (pid, discharged, obligations, len(results) - len(open_), len(results), cases, time.time() - t0))
    if error: print('%s: the targets could not be set up; bounded stand-in only' % pid)
    for r in open_: print('%s: not proved: %s (%s) %s' % (pid, r['name'], r['status'], r['detail'][:200]))
    if violation:
        if failure: print('%s: %s' % (pid, failure['what'][:1000]))
        else:
            for o in refuted[:5]: print('%s: obligation fails: %s: %s' % (pid, o['target'], o['name']))
        print(violation)
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
