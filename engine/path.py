"""
Path exploration by re-execution.  A comparison of symbolic values asks ``decide``; the solver tells which outcomes are
feasible under the path condition, and every feasible outcome is explored (depth first).
"""
from . import sym
from .sym import Sym, SymBool
from .solve import Solver

ALL = frozenset('-0+')
SIGNSET = {'+': frozenset('+'), '-': frozenset('-'), '0+': frozenset('0+'), '0-': frozenset('0-'), None: ALL,
           '0': frozenset('0')}
FLIP = {'+': '-', '-': '+', '0': '0'}


class PathLimit(sym.EngineError):
    pass


class PathAbort(sym.EngineError):
    """an assumption of the harness does not hold on this path"""


class Explorer(object):
    def __init__(self, solver=None, max_paths=400):
        self.solver = solver or Solver()
        self.max_paths = max_paths
        self.paths = 0
        self.decisions_total = 0

    # -- one path
    def _reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.signs = {}
        self.cond = []          # list of (mono, signset)

    def _signs(self, m):
        s = self.signs.get(m)
        if s is None:
            s = SIGNSET[sym._mono_sign(m)]
        return s

    def decide(self, sb):
        d = sb.d
        op = sb.op
        pos = {'>': '+', '>=': '0+', '==': '0'}[op]
        true_set = frozenset(pos if d.c > 0 else [FLIP[x] for x in pos])
        cur = self._signs(d.m)
        t, f = cur & true_set, cur - true_set
        if not f:
            r = True
        elif not t:
            r = False
        else:
            r = self._branch([(d.m, t), (d.m, f)]) == 0
            new = t if r else f
            self.signs[d.m] = new
            self.cond.append((d.m, new))
        return r != sb.neg

    def _branch(self, options):
        """index of the option taken; options: list of (mono, signset) constraints or None (free choice)"""
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.taken.append(k)
            return k
        feas = []
        for k, o in enumerate(options):
            if o is None or self.solver.feasible(self.cond + [o]) != 'unsat':
                feas.append(k)
        if not feas:
            raise PathAbort('infeasible path')
        for k in reversed(feas[1:]):
            self.pending.append(list(self.taken) + [k])
        self.taken.append(feas[0])
        self.decisions_total += 1
        return feas[0]

    def choose(self, n):
        return self._branch([None] * n)

    def assume(self, sb):
        if isinstance(sb, SymBool):
            d, op = sb.d, sb.op
            pos = {'>': '+', '>=': '0+', '==': '0'}[op]
            ts = frozenset(pos if d.c > 0 else [FLIP[x] for x in pos])
            if sb.neg:
                ts = ALL - ts
            new = self._signs(d.m) & ts
            if not new:
                raise PathAbort('assumption violated')
            if new != self._signs(d.m):
                self.signs[d.m] = new
                self.cond.append((d.m, new))
                if self.solver.feasible(self.cond) == 'unsat':
                    raise PathAbort('assumption violated')
        elif not sb:
            raise PathAbort('assumption violated')

    # -- all paths
    def explore(self, run):
        """run(explorer) is executed once per path; yields its results"""
        self.pending = [[]]
        old = sym.DECIDER[0]
        try:
            while self.pending:
                if self.paths >= self.max_paths:
                    raise PathLimit('more than {} paths'.format(self.max_paths))
                prefix = self.pending.pop()
                self._reset(prefix)
                sym.DECIDER[0] = self.decide
                try:
                    r = run(self)
                except PathAbort:
                    continue
                finally:
                    sym.DECIDER[0] = old
                self.paths += 1
                yield r
        finally:
            sym.DECIDER[0] = old
