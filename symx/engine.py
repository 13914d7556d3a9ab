"""Path exploration: depth-first over branch decisions, z3 decides feasibility.

The program under test is re-executed once per path.  `trace` holds the
decisions of the current path; the solver stack mirrors it, so a re-execution
of a known prefix costs no solver work.
"""
import time
import z3
from . import terms as tm


class EngineSignal(BaseException):
    """never caught by code under test (see transform.py)"""


class PathAbort(EngineSignal):
    """path is outside the assumptions / infeasible"""


class StepLimit(EngineSignal):
    """loop iteration bound exceeded on this path"""


class Incomplete(EngineSignal):
    """engine cannot follow this path exactly"""


class CheckViolated(EngineSignal):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


class _Dec:
    __slots__ = ('kind', 'val', 'cond', 'other')
    # kind: 'D' decision (pushed), 'F' forced, 'A' assumption, 'V' value
    def __init__(self, kind, val, cond=None, other=None):
        self.kind, self.val, self.cond, self.other = kind, val, cond, other


_UNK = object()


class Engine:
    def __init__(self, max_ticks=20000, solver_timeout_ms=20000, forced=()):
        self.forced = list(forced)
        self.max_ticks = max_ticks
        self.timeout = solver_timeout_ms
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', solver_timeout_ms)
        self.trace = []
        self.pos = 0
        self.model = None
        self.active = False
        self.aborting = False
        self.stats = dict(paths=0, branches=0, decisions=0, queries=0, unsat=0, sat=0,
                          unknown=0, solver_s=0.0, asserts=0, discharged=0,
                          aborted=0, incomplete=0, realized=0, steplimit=0,
                          completed=0)
        self.incomplete_reasons = {}
        self.covers = {}
        self.reset_path()

    # ---- per path state
    def reset_path(self):
        tm.TAB.reset()
        self.pos = 0
        self.ticks = 0
        self.counter = {}
        self.inputs = []        # (name, kind, payload)
        self.names = set()
        self.observed = []
        self.dec_origin = {}
        self.last_neg = None
        self.blob_elems = {}
        self.registry = {}      # stub state (files, gzip members, digests)
        self.path_exact = True
        self.aborting = False
        self.abort_ticks = 0
        self.path_covers = []

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    # ---- solver
    def _check(self, *extra):
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.perf_counter() - t0
        self.stats['queries'] += 1
        if r == z3.sat:
            self.stats['sat'] += 1
        elif r == z3.unsat:
            self.stats['unsat'] += 1
        else:
            self.stats['unknown'] += 1
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.abort()
            if r != z3.sat:
                self.inexact('solver unknown')
                self.abort()
            self.model = tm.Model(self.solver.model())

    def abort(self):
        self.aborting = True
        raise PathAbort()

    def inexact(self, why):
        self.path_exact = False
        self.incomplete_reasons[why] = self.incomplete_reasons.get(why, 0) + 1

    def give_up(self, why):
        self.inexact(why)
        self.aborting = True
        raise Incomplete(why)

    def tick(self):
        if not self.active:
            return
        self.ticks += 1
        if self.ticks > self.max_ticks and not self.aborting:
            self.aborting = True
            raise StepLimit()
        if self.aborting:
            self.abort_ticks += 1
            if self.abort_ticks > 1000:
                self.abort_ticks = 0
                raise StepLimit()

    def assume_term(self, cond):
        """add a constraint (no fork)"""
        if cond is True:
            return
        if cond is False:
            self.abort()
        if self.aborting or not self.active:
            return
        q = cond.quick()
        if q is True:
            return
        if q is False:
            self.abort()
        if self.pos < len(self.trace):
            self.pos += 1
            cond.learn(True)
            return
        self.solver.add(cond.z())
        self.trace.append(_Dec('A', True))
        self.pos += 1
        cond.learn(True)
        if self.pos <= len(self.forced):
            self.model = None
            return
        if self.model is not None:
            if not cond.ev(self.model):
                self.model = None
                self._ensure_model()

    def branch(self, cond):
        """python truth value of a condition, forking when both are feasible"""
        if cond is True or cond is False:
            return cond
        if not self.active or self.aborting:
            return False
        self.stats['branches'] += 1
        v = cond.quick()
        if v is not None:
            return v
        v = self._branch(cond)
        cond.learn(v)
        return v

    def _branch(self, cond):
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            if e.kind not in 'DFP':
                raise RuntimeError('nondeterministic replay: %s %s' % (e.kind, cond))
            return e.val
        if self.pos < len(self.forced):
            kind, v = self.forced[self.pos]
            if kind not in 'DF':
                raise RuntimeError('nondeterministic resume: %s %s' % (kind, cond))
            if kind == 'D':
                zc = cond.z()
                self.solver.add(zc if v else z3.Not(zc))
                self.model = None
            self.trace.append(_Dec('P' if kind == 'D' else 'F', v))
            self.pos += 1
            return v
        self._ensure_model()
        v = cond.ev(self.model)
        zc = cond.z()
        notc = z3.Not(zc)
        other = notc if v else zc
        r = self._check(other)
        if r == z3.unsat:
            self.trace.append(_Dec('F', v))
            self.pos += 1
            return v
        self.stats['decisions'] += 1
        if r == z3.sat:
            om = tm.Model(self.solver.model())
        else:
            om = _UNK
            self.incomplete_reasons['solver unknown'] = self.incomplete_reasons.get('solver unknown', 0) + 1
        self.solver.push()
        self.solver.add(zc if v else notc)
        self.trace.append(_Dec('D', v, other, om))
        self.pos += 1
        return v

    def holds(self, cond):
        """True when cond is known to hold on this path (no fork; recorded)"""
        if cond is True or cond is False:
            return cond
        if not self.active or self.aborting:
            return False
        q = cond.quick()
        if q is not None:
            return q
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'H':
                raise RuntimeError('nondeterministic replay (holds)')
            r = e.val
        else:
            if self.pos < len(self.forced):
                kind, r = self.forced[self.pos]
                if kind != 'H':
                    raise RuntimeError('nondeterministic resume (holds)')
            else:
                self._ensure_model()
                r = bool(cond.ev(self.model)) and self._check(z3.Not(cond.z())) == z3.unsat
            self.trace.append(_Dec('H', r))
        self.pos += 1
        if r:
            cond.learn(True)
        return r

    def value_hint(self, term):
        """a concrete value feasible for term on this path (recorded)"""
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            if e.kind != 'V':
                raise RuntimeError('nondeterministic replay (value)')
            return e.val
        if self.pos < len(self.forced):
            kind, v = self.forced[self.pos]
            if kind != 'V':
                raise RuntimeError('nondeterministic resume (value)')
            self.trace.append(_Dec('V', v))
            self.pos += 1
            return v
        self._ensure_model()
        v = self.model.lin(term)
        self.trace.append(_Dec('V', v))
        self.pos += 1
        return v

    def realize(self, term, limit=4096):
        if not self.active or self.aborting:
            return 0
        n = 0
        while True:
            v = self.value_hint(term)
            if self.branch(term == v):
                return v
            n += 1
            if n > limit:
                self.give_up('realisation limit')

    # ---- exploration
    def backtrack(self):
        while self.trace:
            e = self.trace.pop()
            if e.kind == 'D':
                self.solver.pop()
                if e.other is not None:
                    self.solver.push()
                    self.solver.add(e.cond)
                    self.trace.append(_Dec('D', not e.val))
                    self.trace[-1].other = None
                    self.model = None if e.other is _UNK else e.other
                    return True
        return False

    def frontier(self):
        """prefixes of the unexplored subtrees (current path excluded)"""
        out = []
        pre = []
        for e in self.trace:
            if e.kind == 'D' and e.other is not None:
                out.append(pre + [('D', not e.val)])
            pre.append(('D' if e.kind == 'P' else e.kind, e.val))
        return out

    def prove(self, cond):
        """True when cond holds for every value on this path; else a model"""
        self.stats['asserts'] += 1
        self.last_neg = None
        if cond is True:
            self._ensure_model()
            self.stats['discharged'] += 1
            return True
        if cond is False:
            self._ensure_model()
            return self.model
        q = cond.quick()
        if q is True:
            self._ensure_model()
            self.stats['discharged'] += 1
            return True
        self.last_neg = z3.Not(cond.z())
        r = self._check(self.last_neg)
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return True
        if r == z3.sat:
            return tm.Model(self.solver.model())
        self.inexact('solver unknown on assertion')
        return True


    def small_model(self, terms, extra=()):
        """a model of the path with small values (so that it can be run)"""
        cons = list(extra)
        if self._check(*cons) != z3.sat:
            self._ensure_model()
            return self.model
        m = tm.Model(self.solver.model())
        for t in terms:
            v = m.lin(t)
            if abs(v) <= 2:
                continue
            for b in (2, 8, 64, 512, 5000, 20000, 70000):
                if abs(v) <= b:
                    break
                c = tm.And(t <= b, t >= -b)
                if c is True:
                    break
                if c is False:
                    continue
                c = c.z()
                if self._check(*(cons + [c])) == z3.sat:
                    cons.append(c)
                    m = tm.Model(self.solver.model())
                    break
        return m


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e


def eng():
    return ENGINE
