"""Path exploration: the harness is re-executed once per path, branch decisions on
symbolic conditions are recorded and the untaken feasible sides are queued."""
from __future__ import annotations

import time

import z3

from . import sym as Y


class TooManyPaths(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.branch_queries = 0
        self.paths = 0

    def as_dict(self):
        return dict(self.__dict__)


BRANCH_MS = 3000


class Path:
    """One execution under a prefix of decisions."""

    def __init__(self, prefix, stats):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_MS)
        self.added = set()
        self.pc = []
        self.cache = {}

    # -- assertions
    def add_defs_of(self, e):
        ids = Y.close_atoms(Y.atoms_of_z3(e))
        for i in ids:
            if i not in self.added:
                self.added.add(i)
                for d in Y.S.atoms[i].defs:
                    self.solver.add(d)
        for n, d in Y.INT_DEFS():
            pass
        links = Y.S.by_key.get("__intlinks__", {})
        if links:
            for n in Y.int_names(e):
                a = links.get(n)
                if a is not None and a not in self.added:
                    for i in Y.close_atoms([a]):
                        if i not in self.added:
                            self.added.add(i)
                            for d in Y.S.atoms[i].defs:
                                self.solver.add(d)
                                self.add_defs_of(d)

    def assert_(self, e):
        self.add_defs_of(e)
        self.pc.append(e)
        self.solver.add(e)
        self.cache.clear()

    def check(self, *extra):
        t = time.time()
        for e in extra:
            self.add_defs_of(e)
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.branch_queries += 1
        return r

    # -- decisions
    def branch(self, z):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.assert_(z if d[1] else z3.Not(z))
            return d[1]
        self.pos += 1
        rt = self.check(z)
        if rt == z3.unsat:
            d = ("b", False)
            self.decisions.append(d)
            self.assert_(z3.Not(z))
            return False
        rf = self.check(z3.Not(z))
        if rf == z3.unsat:
            self.decisions.append(("b", True))
            self.assert_(z)
            return True
        self.pending.append(self.decisions + [("b", False)])
        self.decisions.append(("b", True))
        self.assert_(z)
        return True

    def int_value(self, e):
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(d)
                v = d[2]
                self.assert_(e == v if d[1] else e != v)
                if d[1]:
                    return v
                continue
            self.pos += 1
            self.add_defs_of(e == 0)
            solver = self.solver
            r = self.check()
            if r == z3.unknown:
                # the constraints on integers alone allow at least as many values
                solver = z3.Solver()
                solver.set("timeout", BRANCH_MS)
                for c in self.pc:
                    if not Y.atoms_of_z3(c):
                        solver.add(c)
                r = solver.check()
            if r == z3.unsat:
                raise Y.PathAbort("infeasible")
            if r == z3.unknown:
                raise Y.Unsupported("cannot enumerate a symbolic integer")
            v = solver.model().eval(e, model_completion=True).as_long()
            if (self.check(e != v) if solver is self.solver else solver.check(e != v)) != z3.unsat:
                self.pending.append(self.decisions + [("i", False, v)])
            self.decisions.append(("i", True, v))
            self.assert_(e == v)
            return v

    def choose(self, n, label=""):
        """Non-deterministic choice among n alternatives (scheduler, fault point ...)."""
        v = z3.Int(f"choice_{label}_{len([d for d in self.decisions if d[0] == 'i'])}_{len(self.decisions)}")
        self.assert_(z3.And(v >= 0, v < n))
        return self.int_value(v), v


def explore(fn, stats, max_paths=2000, deadline=None, on_path=None, max_unknown=20):
    """fn(path) is run once per path.  Returns the list of unexplored prefixes."""
    work = [[]]
    while work:
        if stats.paths >= max_paths or (deadline and time.time() > deadline):
            return work
        prefix = work.pop()
        Y.S.reset()
        p = Path(prefix, stats)
        Y.S.brancher = p.branch
        Y.S.int_enum = p.int_value
        stats.paths += 1
        try:
            fn(p)
        finally:
            Y.S.brancher = None
            Y.S.int_enum = None
        work.extend(p.pending)
    return []
