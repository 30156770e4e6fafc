"""Path exploration by re-execution: every ``if`` on a symbolic value forks, infeasible
sides are cut by Z3, integer concretisation enumerates the feasible values."""
import time

from . import sym as S
from . import solve
from .sym import B, N, SymError


class PathLimit(Exception):
    pass


class Abort(BaseException):
    """the current path is infeasible"""


class Chooser:
    def __init__(self, prefix, stats, assumes):
        self.prefix = prefix
        self.i = 0
        self.pc = []            # path condition
        self.known = {}
        self.pending = []       # alternative prefixes to explore
        self.taken = []
        self.stats = stats
        self.assumes = assumes  # callable returning current assumptions

    def _feasible(self, b):
        r, _ = solve.solve(solve.relevant(self.pc + self.assumes(), b) + [b], 1500)
        self.stats['feasibility_queries'] += 1
        return r != 'unsat'

    def branch(self, b):
        if b is S.TRUE:
            return True
        if b is S.FALSE:
            return False
        if b.id in self.known:
            return self.known[b.id]
        nb = S.not_(b)
        if nb.id in self.known:
            return not self.known[nb.id]
        if self.i < len(self.prefix):
            v = self.prefix[self.i]
            self.i += 1
        else:
            t, f = self._feasible(b), self._feasible(nb)
            if not t and not f:
                raise Abort()
            v = t
            if t and f:
                self.pending.append(self.taken + [False])
                self.stats['forks'] += 1
            self.i += 1
        self.taken.append(v)
        self.known[b.id] = v
        self.pc.append(b if v else nb)
        return v

    def concretize(self, n):
        lo, hi = n.lo, n.hi
        if not (lo > -1e6 and hi < 1e6):
            raise SymError('concretisation of an unbounded integer: ' + S.show(n)[:120])
        lo, hi = int(-(-lo // 1)), int(hi // 1)
        if hi - lo > 400:
            raise SymError(f'concretisation over {hi - lo} values')
        while lo < hi:
            mid = (lo + hi) // 2
            if self.branch(S.le(n, float(mid))):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def concretize_real(self, n):
        raise SymError('real value needed concretely: ' + S.show(n)[:160])


class Path:
    def __init__(self, pc, result, exc, data):
        self.pc, self.result, self.exc, self.data = pc, result, exc, data


def explore(fn, max_paths=2000, deadline=None, stats=None):
    """fn(path_state) -> data ; yields Path objects"""
    stats = stats if stats is not None else {}
    for k in ('paths', 'forks', 'feasibility_queries', 'infeasible_paths'):
        stats.setdefault(k, 0)
    todo = [[]]
    out = []
    while todo:
        prefix = todo.pop()
        if stats['paths'] >= max_paths:
            raise PathLimit(f'more than {max_paths} paths')
        if deadline and time.time() > deadline:
            raise PathLimit('exploration deadline')
        cur = []
        ch = Chooser(prefix, stats, lambda: cur)
        S._Ctx.chooser = ch
        try:
            data = fn(ch, cur)
        except Abort:
            stats['infeasible_paths'] += 1
            todo += ch.pending
            continue
        finally:
            S._Ctx.chooser = None
        todo += ch.pending
        stats['paths'] += 1
        out.append((list(ch.pc), data))
    return out
