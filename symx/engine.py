"""Path explorer: re-execution with decision prefixes, z3 for feasibility and obligations."""
import time
from fractions import Fraction
import z3
from . import ir
from .ir import IS, N, ev, b_not, b_in, b_and, b_or, b_eq


class SxBase(BaseException):
    pass


class PathEnd(SxBase):
    """assumption failed / path deliberately ended"""


class Infeasible(SxBase):
    pass


class Unsupported(SxBase):
    """the encoder has no model for an operation: the path stays undecided"""


class Incomplete(SxBase):
    """a concretisation cap was reached"""


class StepLimit(SxBase):
    pass


class Found(SxBase):
    """an obligation has a counterexample"""
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class Stats(object):
    FIELDS = ('paths', 'completed', 'pruned', 'undecided', 'incomplete', 'steplimit', 'queries', 'sat', 'unsat',
              'unknown', 'solver_s', 'obligations', 'discharged', 'folded', 'decisions', 'forced', 'steps', 'witness')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))


class Engine(object):
    current = None

    def __init__(self, timeout_ms=8000, step_limit=400000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', 1)
        self.stack = []          # nodes asserted in the solver, one level each
        self.stats = Stats()
        self.step_limit = step_limit
        self.functions = set()
        self.reasons = {}
        self.frontier = []
        self.concretised = {}

    # ------------------------------------------------------------ one path
    def start(self, prefix, model):
        self.prefix = prefix
        self.decisions = []
        self.pos = 0             # position in self.stack
        self.linked = frozenset()
        self.vars = {}           # name -> domain IS (or None for reals)
        self.model = dict(model) if model else {}
        self.inputs = []         # (name, kind, payload) in creation order
        self.input_names = set()
        self.covers = set()
        self.observed = []
        self.files = {}
        self.dirs = set()
        self.steps = 0
        self.hash_classes = []
        self.nfresh = 0
        self.incomplete = None
        self.path_obl = 0
        self.found = []
        Engine.current = self

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            raise StepLimit()

    def _add(self, nd, enc=None):
        if self.pos < len(self.stack) and self.stack[self.pos] is nd:
            self.pos += 1
            return
        extra = len(self.stack) - self.pos
        if extra:
            self.solver.pop(extra)
            del self.stack[self.pos:]
        self.solver.push()
        self.solver.add(enc if enc is not None else ir.z(nd))
        self.stack.append(nd)
        self.pos += 1

    def _trim(self):
        extra = len(self.stack) - self.pos
        if extra:
            self.solver.pop(extra)
            del self.stack[self.pos:]

    def newvar(self, name, dom, sort='i', pick=None):
        assert name not in self.vars, name
        v = ir.var(name, sort)
        self.vars[name] = dom
        if dom is not None and not dom:
            raise Infeasible()
        if name not in self.model:
            if dom is None:
                self.model[name] = 0
            elif pick is not None and pick in dom:
                self.model[name] = pick
            else:
                self.model[name] = dom.iv[0][0] if dom.iv[0][0] > -ir.INF else (0 if 0 in dom else dom.iv[0][1])
        return v

    def dom(self, e):
        """over-approximating domain of an int expression, or None"""
        if not isinstance(e, N):
            return IS([(e, e)]) if isinstance(e, int) else None
        if e.op == 'var':
            return self.vars.get(e.args[0])
        if e.op == 'add' and not isinstance(e.args[1], N) and isinstance(e.args[1], int):
            d = self.dom(e.args[0])
            return d.shift(e.args[1]) if d is not None else None
        if e.op == 'dig':
            b = e.args[2]
            if b <= 10:
                return IS([(48, 47 + b)])
            a0 = 65 if e.args[3] else 97
            return IS.norm([(48, 57), (a0, a0 + b - 11)])
        if e.op == 'ite' and e.sort == 'i':
            a, b = self.dom(e.args[1]), self.dom(e.args[2])
            if a is not None and b is not None:
                return a | b
        if e.op == 'mod':
            return IS([(0, e.args[1] - 1)])
        return None

    def simp(self, e):
        if isinstance(e, N):
            if e.op == 'var':
                d = self.vars.get(e.args[0])
                if d is not None and d.single():
                    return d.iv[0][0]
            elif e.op == 'add' and not isinstance(e.args[1], N):
                a = self.simp(e.args[0])
                if not isinstance(a, N):
                    return a + e.args[1]
            elif e.op == 'ite':
                c = self.simpb(e.args[0])
                if isinstance(c, bool):
                    return self.simp(e.args[1] if c else e.args[2])
        return e

    def simpb(self, b):
        """simplify with the unary domains of the path condition (sound both ways only when forced)"""
        if isinstance(b, bool):
            return b
        op = b.op
        if op == 'in':
            d = self.dom(b.args[0])
            if d is not None:
                i = d & b.args[1]
                if not i:
                    return False
                if i == d:
                    return True
            return b
        if op == 'not':
            return b_not(self.simpb(b.args[0]))
        if op == 'and':
            return b_and(*[self.simpb(x) for x in b.args])
        if op == 'or':
            return b_or(*[self.simpb(x) for x in b.args])
        if op in ('eq', 'le'):
            x, y = b.args
            sx, sy = self.simp(x), self.simp(y)
            if sx is not x or sy is not y:
                return self.simpb(b_eq(sx, sy) if op == 'eq' else ir.b_le(sx, sy))
            dx, dy = self.dom(x), self.dom(y)
            if dx is not None and dy is not None and dx and dy:
                if op == 'eq':
                    if not (dx & dy):
                        return False
                else:
                    if dx.max() <= dy.min():
                        return True
                    if dx.min() > dy.max():
                        return False
        return b

    def _restrict(self, nd):
        """propagate an asserted condition into unary domains"""
        if isinstance(nd, bool):
            return
        op = nd.op
        if op == 'in':
            e = nd.args[0]
            if e.op == 'var':
                d = self.vars.get(e.args[0])
                if d is not None:
                    self.vars[e.args[0]] = d & nd.args[1]
        elif op == 'not':
            x = nd.args[0]
            if x.op == 'in' and x.args[0].op == 'var':
                d = self.vars.get(x.args[0].args[0])
                if d is not None:
                    self.vars[x.args[0].args[0]] = d - x.args[1]
            elif x.op == 'or':
                for y in x.args:
                    self._restrict(b_not(y))
        elif op == 'and':
            for x in nd.args:
                self._restrict(x)
        elif op == 'or':
            # all disjuncts about one variable
            vs = set()
            acc = None
            for x in nd.args:
                if x.op == 'in' and x.args[0].op == 'var':
                    vs.add(x.args[0])
                    acc = x.args[1] if acc is None else acc | x.args[1]
                else:
                    return
            if len(vs) == 1:
                v = vs.pop()
                d = self.vars.get(v.args[0])
                if d is not None:
                    self.vars[v.args[0]] = d & acc
        elif op == 'eq':
            a, b = nd.args
            da, db = self.dom(a), self.dom(b)
            if da is not None and db is not None:
                i = da & db
                if isinstance(a, N) and a.op == 'var':
                    self.vars[a.args[0]] = i
                if isinstance(b, N) and b.op == 'var':
                    self.vars[b.args[0]] = i

    def _assert(self, nd):
        """add a condition to the path.  Memberships of one variable are kept as its domain (and go to the
        solver with each query), everything else sits on the solver's stack."""
        if isinstance(nd, bool):
            if not nd:
                raise Infeasible()
            return
        u = ir.unary(nd)
        if u is not None:
            self.vars[u[0]] = self.vars[u[0]] & u[1]
            return
        if nd.op == 'and':
            for x in nd.args:
                self._assert(x)
            return
        self._add(nd, ir.z(nd))
        self.linked |= nd.vars
        self._restrict(nd)

    def query(self, nd):
        """is PC and nd satisfiable? returns 'sat'/'unsat'/'unknown' and leaves a model in self._m"""
        st = self.stats
        u = None
        if nd is not True:
            u = ir.unary(nd)
            if u is not None and u[0] not in self.linked:
                i = self.vars[u[0]] & u[1]
                if i:
                    # a witness: the other variables keep their values
                    st.witness += 1
                    self._m = dict(self.model)
                    self._m[u[0]] = self._pickval(i)
                    return 'sat'
        self._trim()
        t = time.time()
        self.solver.push()
        try:
            names = self.linked if nd is True else self.linked | nd.vars
            if nd is True:
                names = self.vars
            for n in sorted(names):
                d = self.vars[n]
                if u is not None and n == u[0]:
                    d = d & u[1]
                if nd is True and d is not None and len(d.iv) > 8 and n not in self.linked:
                    # its witness stands for it (enough for a verdict of satisfiable)
                    assert self.model[n] in d
                    d = IS([(self.model[n], self.model[n])])
                if d is not None and d is not ir.IS_INT:
                    self.solver.add(ir.z_dom(n, d))
            if u is None and nd is not True:
                self.solver.add(ir.z(nd))
            r = self.solver.check()
            st.queries += 1
            if r == z3.sat:
                st.sat += 1
                self._m = dict(self.model)
                self._extract(self.solver.model(), names)
                return 'sat'
            if r == z3.unsat:
                st.unsat += 1
                return 'unsat'
            st.unknown += 1
            return 'unknown'
        finally:
            self.solver.pop()
            self.stats.solver_s += time.time() - t

    @staticmethod
    def _pickval(i):
        for p in (97, 48, 0):
            if p in i:
                return p
        a, b = i.iv[0]
        return a if a > -ir.INF else b

    def _extract(self, zm, names):
        for name in names:
            d = self.vars[name]
            zv = ir.z(ir.var(name, 'i' if d is not None else 'r'))
            v = zm.eval(zv, model_completion=True)
            if z3.is_int_value(v):
                self._m[name] = v.as_long()
            else:
                self._m[name] = Fraction(v.numerator_as_long(), v.denominator_as_long())

    def finish(self):
        """solver verdict on the completed path: its condition is satisfiable, so what it showed was reached"""
        r = self.query(True)
        if r == 'sat':
            return True
        self.note('completed path not confirmed: ' + r)
        return False

    # ------------------------------------------------------------ decisions
    def branch(self, b):
        b = self.simpb(b)
        if isinstance(b, bool):
            return b
        self.tick()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self._assert(b if d else b_not(b))
            return d
        self.stats.decisions += 1
        v = bool(ev(b, self.model))
        other = b_not(b) if v else b
        r = self.query(other)
        if r == 'unsat':
            self.stats.forced += 1
        elif r == 'sat':
            self.frontier.append((tuple(self.decisions) + (not v,), self._m))
        else:
            self.note('solver unknown on a branch (other side not explored)')
            self.stats.undecided += 1
        self.decisions.append(v)
        self._assert(b if v else b_not(b))
        return v

    def choose(self, n):
        """unconstrained n-ary choice"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.frontier.append((tuple(self.decisions) + (k,), dict(self.model)))
        self.decisions.append(d)
        return d

    def assume(self, b):
        b = self.simpb(b)
        if b is True:
            return
        if b is False:
            raise PathEnd()
        i = len(self.decisions)
        if i < len(self.prefix):
            self.decisions.append(True)
            self._assert(b)
            return
        if not ev(b, self.model):
            r = self.query(b)
            if r != 'sat':
                if r == 'unknown':
                    self.note('solver unknown on an assumption')
                    self.stats.undecided += 1
                raise PathEnd()
            self.model = self._m
        self.decisions.append(True)
        self._assert(b)

    def check(self, b, label):
        """obligation: PC implies b"""
        self.stats.obligations += 1
        self.path_obl += 1
        raw = b
        b = self.simpb(b)
        if isinstance(b, bool):
            if b and isinstance(raw, N) and len(self.decisions) >= len(self.prefix):
                # the path's domains decide it; the solver confirms
                r = self.query(b_not(raw))
                if r == 'unsat':
                    self.stats.discharged += 1
                    return
                raise AssertionError("domains and solver disagree on " + label)
            if b:
                # already decided by the branches of this path (solver verdicts); nothing is left
                self.stats.folded += 1
                self.stats.discharged += 1
                return
            raise Found(label)
        i = len(self.decisions)
        if i < len(self.prefix):
            self.stats.obligations -= 1     # counted, and decided, on the path this one branched from
            self.decisions.append(True)
            self._assert(b)
            return
        r = self.query(b_not(b))
        if r == 'unsat':
            self.stats.discharged += 1
            self.decisions.append(True)
            self._assert(b)
            return
        if r == 'unknown':
            self.note('solver unknown on obligation ' + label)
            self.stats.undecided += 1
            raise PathEnd()
        # counterexample; remember it, then go on with the values that satisfy the obligation
        self.found.append((label, self._m))
        if not ev(b, self.model):
            r = self.query(b)
            if r != 'sat':
                raise PathEnd()
            self.model = self._m
        self.decisions.append(True)
        self._assert(b)

    def note(self, why):
        self.reasons[why] = self.reasons.get(why, 0) + 1

    def concretise(self, e, cap=4000, why='concretisation'):
        """fork on every value of e (up to cap)"""
        e = self.simp(e)
        n = 0
        while isinstance(e, N):
            if n >= cap:
                self.note('cap: ' + why)
                raise Incomplete(why)
            i = len(self.decisions)
            if i < len(self.prefix):
                v = self.prefix[i][1]
            else:
                v = ev(e, self.model)
                if isinstance(v, Fraction) and v.denominator == 1 and e.sort == 'i':
                    v = int(v)
            self.decisions.append(('v', v))
            if self.branch(b_eq(e, v)):
                return v
            # the branch took the negative side on re-execution: continue with the next value
            n += 1
            e = self.simp(e)
        return e
