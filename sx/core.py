"""Symbolic execution core: path exploration by re-execution, decided by z3.

The code under test runs in the ordinary CPython interpreter.  Inputs are
*proxies* whose operations build z3 terms; whenever Python needs a truth value
(``__bool__``), an index or another concrete fact, the engine forks: it asks z3
which outcomes are feasible under the current path condition and explores every
feasible one (depth-first, by re-executing the harness with a recorded prefix
of decisions).  When a harness asserts something (``check``), z3 decides
``path-condition and not assertion``.
"""
import contextlib
import signal
import time
import z3

# --------------------------------------------------------------------------
# control flow signals: BaseException so that `except Exception` in the code
# under test can never swallow them


# whether a symbolic value has been made on this path
LIVE = [False]


class Signal(BaseException):
    pass


class PathInfeasible(Signal):
    """The current path was cut (assumption false)."""


class EngineError(Signal):
    """The engine itself cannot give an answer (solver unknown, nondeterminism)."""


class Unsupported(Signal):
    """An operation on a symbolic value the engine has no exact model for."""


class PathStop(Signal):
    """Stop exploring this path (a violation was recorded and nothing follows)."""


class PathTimeout(Signal):
    """One path ran for too long (non-termination of the code under test)."""


class Budget(Signal):
    """Time budget of this exploration used up."""


ENGINE = None          # the engine of this process


def eng():
    if ENGINE is None:
        raise RuntimeError('no symbolic engine active')
    return ENGINE


class Decision:
    __slots__ = ('cond', 'taken', 'alt', 'pushed')

    def __init__(self, cond, taken, alt, pushed):
        self.cond = cond        # z3 BoolRef
        self.taken = taken      # outcome followed on the current path
        self.alt = alt          # True: the other outcome is still to be explored
        self.pushed = pushed    # True: a solver scope belongs to it


class Violation:
    def __init__(self, msg, inputs, kind):
        self.msg, self.inputs, self.kind = msg, inputs, kind


class Stats:
    FIELDS = ('paths', 'forks', 'forced', 'queries', 'solver_s', 'checks',
              'discharged', 'trivial', 'infeasible', 'concretised',
              'incomplete_paths', 'enum_values')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}
        self.notes = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['labels'] = self.labels
        d['notes'] = self.notes
        return d


class Engine:
    def __init__(self, deadline=None, query_timeout_ms=60000, max_violations=12):
        global ENGINE
        ENGINE = self
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.decisions = []
        self.stats = Stats()
        self.violations = []
        self.deadline = deadline
        self.max_violations = max_violations
        self.exhausted = False
        self.samples = []
        self.incomplete_samples = []
        self.findings = {}
        self.paths_reaching_check = 0
        self.repeated = 0
        self.timeouts = 0

    # ---- solver ---------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise EngineError('solver answered unknown: %s'
                              % self.solver.reason_unknown())
        return r == z3.sat

    def _fresh_model(self):
        if not self._check():
            raise PathInfeasible()
        self.model = self.solver.model()

    # ---- one path -------------------------------------------------------
    def _reset_path(self):
        LIVE[0] = False
        self.pos = 0
        self.pick_i = 0
        self.fresh_n = 0
        self.scratch = {}
        self.cache = {}
        self.keep = []
        self.vars = {}          # name -> (kind, proxy payload)
        self.order = []         # names in creation order
        self.path_checks = 0
        self.path_incomplete = False
        self.restore = []
        self.unrestorable = []
        self.path_notes = []

    def branch(self, cond):
        """Decide the truth of the z3 condition on this path, forking if both
        outcomes are feasible."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        if z3.is_not(cond):
            cond, neg = cond.arg(0), True
        key = cond.get_id()
        if key in self.cache:
            return self.cache[key] != neg
        taken = self._decide(cond)
        self.cache[key] = taken
        self.keep.append(cond)
        return taken != neg

    def _decide(self, cond):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if not d.cond.eq(cond):
                raise EngineError('non-deterministic re-execution: expected %s got %s'
                                  % (d.cond, cond))
            self.pos += 1
            return d.taken
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        side = z3.is_true(self.model.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        feasible = self._check(other)
        self.pos += 1
        if not feasible:
            self.stats.forced += 1
            self.decisions.append(Decision(cond, side, False, False))
            return side
        self.stats.forks += 1
        # follow the side the current model satisfies: no new query needed
        self.solver.push()
        self.solver.add(cond if side else z3.Not(cond))
        self.decisions.append(Decision(cond, side, True, True))
        return side

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathInfeasible()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathInfeasible()
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if not d.cond.eq(cond):
                raise EngineError('non-deterministic re-execution (assume): expected %s got %s'
                                  % (d.cond, cond))
            self.pos += 1
            if not d.taken:
                raise PathInfeasible()
            return
        ok = z3.is_true(self.model.eval(cond, model_completion=True))
        if not ok:
            feasible = self._check(cond)
            if not feasible:
                self.decisions.append(Decision(cond, False, False, False))
                self.pos += 1
                raise PathInfeasible()
            self.model = self.solver.model()
        self.solver.push()
        self.solver.add(cond)
        self.decisions.append(Decision(cond, True, False, True))
        self.pos += 1

    def check(self, cond, msg):
        """Assertion: is `cond` true for every value on this path?"""
        self.stats.checks += 1
        self.path_checks += 1
        label = msg if isinstance(msg, str) else str(msg)
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if cond is not True and cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        if cond is True:
            self.stats.trivial += 1
            self.stats.discharged += 1
            return
        if cond is False:
            self._violation(msg, self.model, 'assertion')
            raise PathStop()
        key = cond.get_id()
        if self.cache.get(key) is True:
            self.stats.discharged += 1
            return
        # recorded like an assumption, so that re-execution does not re-ask
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if not d.cond.eq(cond):
                raise EngineError('non-deterministic re-execution (check)')
            self.pos += 1
            if not d.taken:
                raise PathStop()
            self.stats.checks -= 1      # was counted when first decided
            self.stats.labels[label] -= 1
            self.cache[key] = True
            self.keep.append(cond)
            return
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        if not self._check(z3.Not(cond)):
            self.stats.discharged += 1
            self.decisions.append(Decision(cond, True, False, False))
            self.pos += 1
            self.cache[key] = True
            self.keep.append(cond)
            return
        self._violation(msg, self.solver.model(), 'assertion')
        # continue with the values for which the assertion holds
        if self._check(cond):
            self.model = self.solver.model()
            self.solver.push()
            self.solver.add(cond)
            self.decisions.append(Decision(cond, True, False, True))
            self.pos += 1
            self.cache[key] = True
            self.keep.append(cond)
        else:
            self.decisions.append(Decision(cond, False, False, False))
            self.pos += 1
            raise PathStop()

    def _violation(self, msg, model, kind):
        same = sum(v.kind == kind and v.msg == msg for v in self.violations)
        if same >= 3:
            self.repeated += 1
            return
        self.violations.append(Violation(msg, self.inputs(model), kind))

    def inputs(self, model):
        out = {}
        for name in self.order:
            kind, payload = self.vars[name]
            out[name] = concretise_payload(kind, payload, model)
        return out

    def enumerate_value(self, expr, limit=4096, what='index'):
        """Fork over every feasible concrete value of an integer term."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        # is it already fixed?  loop: pick the model's value, branch on equality
        n = 0
        while True:
            v = self._enum_pick(expr)
            if self.branch(expr == v):
                self.stats.enum_values += 1
                return v
            n += 1
            if n >= limit:
                raise Unsupported('more than %d values for %s' % (limit, what))

    def _enum_pick(self, expr):
        # deterministic under re-execution: picks are logged with the decision
        # index they belong to and replayed from the log
        if self.pick_i < len(self.picks):
            v = self.picks[self.pick_i][1]
            self.pick_i += 1
            return v
        v = self.model.eval(expr, model_completion=True).as_long()
        self.picks.append((self.pos, v))
        self.pick_i += 1
        return v

    # ---- exploration ----------------------------------------------------
    def explore(self, fn):
        """Run fn() once per feasible path."""
        self.solver.reset()
        self.decisions = []
        self.picks = []
        self._reset_path()
        self.model = None
        first = True
        while True:
            self._reset_path()
            if first:
                self._fresh_model()
                first = False
            try:
                self._one(fn)
            except Budget:
                self.exhausted = False
                self.stats.notes['budget'] = 'time budget used up'
                return False
            if len(self.violations) + self.repeated >= self.max_violations or self.timeouts > 1:
                self.stats.notes['stopped'] = 'stopped after %d violations' % len(self.violations)
                return False
            if not self._backtrack():
                self.exhausted = True
                return True

    def _one(self, fn):
        try:
            with path_alarm(PATH_SECONDS):
                try:
                    fn()
                except BaseExceptionGroup as g:
                    # a signal of the engine, wrapped by an asyncio task group
                    while isinstance(g, BaseExceptionGroup):
                        sig = [x for x in g.exceptions if isinstance(x, Signal)]
                        inner = sig or [x for x in g.exceptions
                                        if isinstance(x, BaseExceptionGroup)]
                        if not inner:
                            raise
                        g = inner[0]
                    raise g
            self.stats.paths += 1
        except PathTimeout:
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            self.stats.paths += 1
            self._violation('does not terminate', self.model, 'exception')
            self.timeouts += 1
            return
        except PathInfeasible:
            self.stats.infeasible += 1
            return
        except PathStop:
            self.stats.paths += 1
        except Unsupported as e:
            self.stats.paths += 1
            self.stats.incomplete_paths += 1
            k = 'unsupported: %s' % e
            self.stats.notes[k] = self.stats.notes.get(k, 0) + 1
            if len(self.incomplete_samples) < 40:
                self.incomplete_samples.append(self.inputs(self.model))
            return
        except Exception as e:
            self.stats.paths += 1
            self._violation('unexpected ' + describe_exception(e), self.model, 'exception')
            return
        finally:
            for undo in reversed(self.restore):
                undo()
        if self.path_checks:
            self.paths_reaching_check += 1
        if len(self.samples) < 3 or (self.stats.paths % 997 == 0 and len(self.samples) < 6):
            self.samples.append(self.inputs(self.model))

    def _backtrack(self):
        while self.decisions:
            d = self.decisions.pop()
            if d.pushed:
                self.solver.pop()
            if d.alt:
                taken = not d.taken
                self.solver.push()
                self.solver.add(d.cond if taken else z3.Not(d.cond))
                if not self._check():
                    raise EngineError('explored side became infeasible')
                self.model = self.solver.model()
                self.decisions.append(Decision(d.cond, taken, False, True))
                last = len(self.decisions) - 1
                self.picks = [p for p in self.picks if p[0] <= last]
                return True
        return False


PATH_SECONDS = 30


@contextlib.contextmanager
def path_alarm(seconds):
    def ring(*a):
        raise PathTimeout()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def describe_exception(e):
    import traceback
    at = ''
    for fr in traceback.extract_tb(e.__traceback__):
        if '/sx/' not in fr.filename:
            at = '%s:%s' % ('/'.join(fr.filename.split('/')[-3:]), fr.name)
    try:
        text = str(e)
        if type(text) is not str:
            text = '<symbolic text>'
    except BaseException:
        text = '?'
    return '%s: %s (in %s)' % (type(e).__name__, text[:200], at)


def concretise_payload(kind, payload, model):
    def ev(e):
        if isinstance(e, (int, bool, float, str)) or e is None:
            return e
        v = model.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_rational_value(v):
            return ['frac', v.numerator_as_long(), v.denominator_as_long()]
        raise EngineError('cannot concretise %s' % v)
    if kind == 'str':
        return ''.join(chr(ev(c)) for c in payload)
    return ev(payload)
