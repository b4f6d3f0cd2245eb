"""Exploration of all paths of a target, and its obligations."""
import time
import traceback
import z3
from . import core, ops
from .core import *
from .interp import Interp, Source


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = []      # dicts
        self.paths = 0
        self.status = None         # proved, refuted, undecided, unsupported
        self.detail = ''
        self.covers = {}


class Engine:
    prove_ms = 20000
    feas_ms = None
    cand_ms = 8000
    max_paths = 4000
    max_restarts = 150

    def __init__(self, budget=600):
        self.source = Source()
        self.solver_time = 0.0
        self.queries = 0
        self.functions = set()
        self.contracts = set()
        self.loopinfo = {}
        self.forced = set()
        self.where = None
        self.deadline = time.time() + budget
        self.results = []
        self.drops = []
        self.backends = {'z3': 0, 'cvc5': 0}
        self.invs = {}
        self.ends = {}          # loops with no given limit -> what they count down
        self.answers = {}       # of the solver; see Cx.check

    # bookkeeping
    def stat_solver(self, dt):
        self.solver_time += dt
        self.queries += 1
        if time.time() > self.deadline: raise Unsupported('time budget of the proof used up')

    def at(self, node):
        self.where = getattr(node, 'lineno', None)

    def used_function(self, f):
        self.functions.add(f.__module__ + ':' + f.__qualname__)

    def used_contract(self, name):
        self.contracts.add(name)

    def is_cut(self, key): return key in self.forced or key in self.loopinfo

    def force_cut(self, key):
        self.forced.add(key)
        raise Restart()

    def note_drop(self, loop, name, why):
        self.drops.append((loop.name(), name, why))

    def count_invariant(self, loop, name, why):
        self.invs.setdefault((loop.name(), name), {}).setdefault(why, 0)
        self.invs[(loop.name(), name)][why] += 1

    def iteration_done(self, loop):
        self.cur.covers['iteration ' + loop.name()] = True

    def schedule(self, prefix):
        self.work.append(prefix)

    # proving
    def try_prove(self, goal, sorts=None, ms=None):
        """'proved', 'refuted' or 'unknown' in the current context."""
        c = core.cx()
        c.push()
        try:
            if sorts is not None:
                if not isinstance(sorts, (tuple, list)): sorts = (sorts,)
                sks = [c.fresh('sk', I if isinstance(s, str) else s) for s in sorts]
                for s, key in zip(sks, sorts):
                    c.register(s)
                    if s.sort() == I: c.register(s, IDX)
                    if isinstance(key, str) and key != IDX: c.register(s, key)
                goal = goal(*sks)
            if callable(goal): goal = goal()
            if isinstance(goal, list):      # parts
                for g in goal:
                    r = self.try_prove(g, ms=ms)
                    if r != 'proved': return r
                return 'proved'
            if isinstance(goal, SBool): goal = goal.t
            if goal is None: return 'proved'
            if isinstance(goal, bool): goal = z3.BoolVal(goal)
            goal = z3.simplify(goal)
            if z3.is_true(goal): return 'proved'
            r = c.check(z3.Not(goal), ms=ms or self.cand_ms)
            if r == z3.unsat:
                self.backends['z3'] += 1
                return 'proved'
            if r == z3.sat:
                try: self.last_model = c.solver.model()
                except z3.Z3Exception: self.last_model = None
                return 'refuted'
            r = self.second_opinion(c, goal)
            return r
        finally:
            c.pop()

    def second_opinion(self, c, goal):
        try:
            import cvc5, re
            s = z3.Solver()
            for f in c.log: s.add(f)
            s.add(z3.Not(goal))
            text = s.to_smt2()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', '20000')
            slv.setOption('strings-exp', 'true')
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'q')
            sm = parser.getSymbolManager()
            t = time.time()
            res = 'unknown'
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull(): break
                out = cmd.invoke(slv, sm)
                if str(out).strip() in ('sat', 'unsat', 'unknown'): res = str(out).strip()
            self.stat_solver(time.time() - t)
            if res == 'unsat':
                self.backends['cvc5'] += 1
                return 'proved'
            if res == 'sat':
                self.last_model = None
                return 'refuted'
        except Unsupported:
            raise
        except Exception as e:
            self.last_error = repr(e)
        return 'unknown'

    def prove(self, name, goal, sorts=None):
        """An obligation of the target."""
        c = core.cx()
        if c.replaying: return
        if c.subs: raise Unsupported('obligation in a pure context')
        t = time.time()
        self.last_model = None
        st = self.try_prove(goal, sorts, ms=self.prove_ms)
        ob = dict(name=name, status=st, time=round(time.time() - t, 3))
        if st != 'proved':
            ob['line'] = self.where
            ob['model'] = self.model_text()
            if st == 'refuted' and c.check() == z3.unsat:
                ob['status'] = 'proved'
        self.cur.obligations.append(ob)
        return ob['status'] == 'proved'

    def model_text(self):
        m = self.last_model
        if m is None: return ''
        try:
            return '; '.join('%s = %s' % (d.name(), m[d]) for d in sorted(m.decls(), key=lambda d: d.name()) if d.arity() == 0)[:3000]
        except Exception: return ''

    def cover(self, name):
        """This point is reached on some feasible path."""
        c = core.cx()
        if self.cur.covers.get(name): return
        self.cur.covers.setdefault(name, False)
        if c.check() != z3.unsat: self.cur.covers[name] = True

    # exploring
    def run(self, name, fn, expect_covers=()):
        """fn(vc) sets up the state, calls the code and states obligations.
        Where the solver gave up on a candidate or an obligation, and the target
        is not proved, it is all done again with more time for each question."""
        n = len(self.drops)
        res = self.run1(name, fn, expect_covers)
        if res.status in ('refuted', 'undecided') and (res.status == 'undecided' or any(o['status'] == 'unknown' for o in res.obligations) or self.gave_up(n)):
            first = res
            self.results.pop()
            del self.drops[n:]
            saved = self.cand_ms, self.prove_ms
            self.cand_ms, self.prove_ms = 6 * self.cand_ms, 3 * self.prove_ms
            res = self.run1(name, fn, expect_covers)
            self.cand_ms, self.prove_ms = saved
            res.wall += first.wall
            res.patient = True
            if res.status == 'unsupported':
                for o in res.obligations:
                    if o['status'] == 'refuted': o['status'] = 'unknown'     # a candidate that it needs may only have been too hard
            if res.status == 'refuted' and self.gave_up(n): res.detail = 'the solver gave up on: %s' % '; '.join(x[1] for x in self.gave_up(n))
        return res

    def gave_up(self, n=0):
        return [d for d in self.drops[n:] if d[2].endswith('unknown')]

    def run1(self, name, fn, expect_covers=()):
        res = Result(name)
        self.results.append(res)
        self.loopinfo = {}
        self.forced = set()
        restarts = 0
        t0 = time.time()
        try:
            while True:
                try:
                    self.cur = res
                    res.obligations = []
                    res.paths = 0
                    res.covers = {k: False for k in expect_covers}
                    self.explore(res, fn)
                    break
                except Restart:
                    restarts += 1
                    if restarts > self.max_restarts: raise Unsupported('too many restarts')
            bad = [o for o in res.obligations if o['status'] != 'proved']
            if any(o['status'] == 'refuted' for o in bad): res.status = 'refuted'
            elif bad: res.status = 'undecided'
            elif not res.obligations: res.status, res.detail = 'unsupported', 'no obligation generated'
            elif not all(res.covers.values()):
                res.status = 'unsupported'
                res.detail = 'not reached: %s' % [k for k, v in res.covers.items() if not v]
            else: res.status = 'proved'
        except Unsupported as e:
            res.status = 'unsupported'
            res.detail = '%s (line %s)' % (e, self.where)
            res.trace = traceback.format_exc()
        except RecursionError as e:
            res.status = 'unsupported'
            res.detail = 'recursion'; res.trace = traceback.format_exc()[-3000:]
        except z3.Z3Exception as e:
            res.status = 'unsupported'
            res.detail = 'z3: %s' % e
            res.trace = traceback.format_exc()
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, NotImplementedError, AssertionError) as e:
            res.status = 'unsupported'
            res.detail = 'internal: %r (line %s)' % (e, self.where)
            res.trace = traceback.format_exc()
        finally:
            set_cx(None)
        res.wall = time.time() - t0
        res.restarts = restarts
        return res

    def explore(self, res, fn):
        self.work = [[]]
        while self.work:
            prefix = self.work.pop()
            c = Cx(self, prefix)
            set_cx(c)
            res.paths += 1
            if res.paths > self.max_paths: raise Unsupported('too many paths')
            vc = VC(self)
            try:
                fn(vc)
            except PathEnd:
                pass
            except PyRaise as e:
                if not c.replaying and c.check() != z3.unsat:
                    self.cur.obligations.append(dict(name='no exception (%s)' % e.exc.cls.__name__, status='refuted',
                                                     time=0, line=self.where,
                                                     model='%s%r' % (e.exc.cls.__name__, tuple(e.exc.args))))
            if c.replaying: raise Unsupported('replay diverged')


class VC:
    """What the targets use."""
    def __init__(self, engine):
        self.e = engine
        self.cx = core.cx()
        self.i = Interp(engine)

    def call(self, f, *args, **kw):
        return self.i.apply(f, list(args), kw)

    def method(self, obj, name, *args, **kw):
        return self.i.apply(self.i.getattr_(obj, name), list(args), kw)

    def attempt(self, thunk):
        """(value, None) or (None, exception)."""
        depth = len(self.cx.callstack)
        try:
            return thunk(), None
        except PyRaise as e:
            del self.cx.callstack[depth:]
            return None, e.exc

    def prove(self, name, goal, sorts=None):
        return self.e.prove(name, goal, sorts)

    def assume(self, f): self.cx.assume(f)

    def fact(self, sorts, fn, name=''): self.cx.add_fact(sorts, fn, name)

    def cover(self, name): self.e.cover(name)

    def invariants(self, f): self.cx.ghost['invariants'] = f
