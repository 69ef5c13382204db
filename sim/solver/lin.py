"""Simulated solver back end shared by the simulated gurobipy / python-mip / CP-SAT interfaces.

A model is solved to optimality by HiGHS (scipy); then the simulator - not the solver - decides
*which* optimal solution is reported, how far integer values and objective are off within the
tolerances a real solver is entitled to, and whether the call fails or is inconclusive."""

import math
import random

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp

from sim.core import SimBudget, SimUnsupported

INF = math.inf


class World:
    """The environment of one simulated run as seen by the simulated solvers."""

    def __init__(self, ctx, faults=(), budget=4000, alternatives=True, perturb=True):
        self.ctx = ctx
        self.faults = {int(f["at"]): f for f in faults}
        self.calls = 0  # optimize() calls, all APIs
        self.models = 0
        self.budget = budget
        self.op_calls = 0  # calls in the current top-level operation
        self.op_limit = budget
        self.alternatives = alternatives
        self.perturb = perturb
        self.fired = []
        self.licence = "ok"  # Gurobi licence: "ok", "none" or the largest number of variables

    def licence_problem(self, num_vars=None):
        """'none'/'size' if Gurobi refuses to work now, else None"""
        problem = None
        if self.licence == "none":
            problem = "none"
        elif self.licence != "ok" and num_vars is not None and num_vars > self.licence:
            problem = "size"
        if problem:
            self.fired.append((self.calls, "licence-" + problem))
            self.ctx.count("fault_licence_" + problem)
        return problem

    def begin_op(self, limit=None):
        self.op_calls = 0
        self.op_limit = self.budget if limit is None else limit

    def next_fault(self):
        fault = self.faults.get(self.calls)
        return fault


_world = None


def world():
    if _world is None:
        raise SimUnsupported("simulated solver used outside a simulated run")
    return _world


def set_world(w):
    global _world
    _world = w


class Core:
    """Solver-independent description of a model."""

    def __init__(self):
        self.lb, self.ub, self.kind, self.names = [], [], [], []
        self.rows = []  # (dict, lo, hi)
        self.indicators = []  # (var, value, dict, lo, hi)
        self.extrema = []  # (res, [args], const, sign) res = max (sign=1) / min (sign=-1)
        self.obj, self.obj_const = {}, 0.0
        self.maximize = False
        self.rel_gap = 1e-4
        self.abs_gap = 1e-10
        self.int_tol = 1e-5
        self.infeasible_const = False

    def add_var(self, lb, ub, kind, name):
        if kind == "B":
            lb, ub = max(lb, 0.0), min(ub, 1.0)
        self.lb.append(float(lb))
        self.ub.append(float(ub))
        self.kind.append("C" if kind == "C" else "I")
        self.names.append(name)
        return len(self.lb) - 1


class Result:
    def __init__(self, status, x=None, obj=None):
        self.status, self.x, self.obj = status, x, obj


def _tighten(core, extra_rows, lb, ub):
    """A few rounds of bound propagation (used for big-M constants only)."""
    rows = core.rows + extra_rows
    for _ in range(4):
        changed = False
        for coefs, lo, hi in rows:
            amin = amax = 0.0
            nmin = nmax = 0
            for j, a in coefs.items():
                l, u = (a * lb[j], a * ub[j]) if a > 0 else (a * ub[j], a * lb[j])
                if l == -INF:
                    nmin += 1
                else:
                    amin += l
                if u == INF:
                    nmax += 1
                else:
                    amax += u
            for j, a in coefs.items():
                if a == 0:
                    continue
                l, u = (a * lb[j], a * ub[j]) if a > 0 else (a * ub[j], a * lb[j])
                if hi < INF and nmin - (l == -INF) == 0:
                    rest = amin - (0.0 if l == -INF else l)
                    b = (hi - rest) / a
                    if a > 0 and b < ub[j] - 1e-9:
                        ub[j] = b
                        changed = True
                    elif a < 0 and b > lb[j] + 1e-9:
                        lb[j] = b
                        changed = True
                if lo > -INF and nmax - (u == INF) == 0:
                    rest = amax - (0.0 if u == INF else u)
                    b = (lo - rest) / a
                    if a > 0 and b > lb[j] + 1e-9:
                        lb[j] = b
                        changed = True
                    elif a < 0 and b < ub[j] - 1e-9:
                        ub[j] = b
                        changed = True
        for res, args, const, sign in core.extrema:
            if sign > 0:
                for j in args:
                    if ub[res] < ub[j] - 1e-9:
                        ub[j] = ub[res]
                        changed = True
                low = max([lb[j] for j in args] + ([const] if const is not None else []))
                if low > lb[res] + 1e-9:
                    lb[res] = low
                    changed = True
            else:
                for j in args:
                    if lb[res] > lb[j] + 1e-9:
                        lb[j] = lb[res]
                        changed = True
        if not changed:
            break
    return lb, ub


def _range(coefs, lb, ub):
    lo = hi = 0.0
    for j, a in coefs.items():
        if a > 0:
            lo += a * lb[j]
            hi += a * ub[j]
        elif a < 0:
            lo += a * ub[j]
            hi += a * lb[j]
    return lo, hi


BIGM = 1e4


class Problem:
    """Expanded (big-M) matrix form of a Core."""

    def __init__(self, core):
        self.core = core
        lb, ub, kind = list(core.lb), list(core.ub), list(core.kind)
        rows = list(core.rows)
        self.trivially_infeasible = core.infeasible_const or any(
            l > u + 1e-9 for l, u in zip(lb, ub)
        )
        if not self.trivially_infeasible and (core.indicators or core.extrema):
            tlb, tub = _tighten(core, [], list(lb), list(ub))
            for var, value, coefs, lo, hi in core.indicators:
                rlo, rhi = _range(coefs, tlb, tub)
                sgn, off = (-1.0, 1.0) if value else (1.0, 0.0)  # (1-b) or b
                if hi < INF:
                    m = (rhi if rhi < INF else BIGM) - hi
                    if m > 0:
                        c = dict(coefs)
                        c[var] = c.get(var, 0.0) - m * sgn
                        rows.append((c, -INF, hi + m * off))
                if lo > -INF:
                    m = lo - (rlo if rlo > -INF else -BIGM)
                    if m > 0:
                        c = dict(coefs)
                        c[var] = c.get(var, 0.0) + m * sgn
                        rows.append((c, lo - m * off, INF))
            for res, args, const, sign in core.extrema:
                choice = []
                terms = [({j: 1.0}, 0.0, tlb[j], tub[j]) for j in args]
                if const is not None:
                    terms.append(({}, float(const), float(const), float(const)))
                top = max(t[3] for t in terms) if sign > 0 else None
                bot = min(t[2] for t in terms) if sign < 0 else None
                for coefs, k, l, u in terms:
                    b = len(lb)
                    lb.append(0.0), ub.append(1.0), kind.append("I")
                    choice.append(b)
                    c = {res: 1.0}
                    for j in coefs:
                        c[j] = c.get(j, 0.0) - 1.0
                    if sign > 0:
                        rows.append((c, k, INF))  # res >= term
                        m = (top if top < INF else BIGM) - (l if l > -INF else -BIGM)
                        c2 = dict(c)
                        c2[b] = m
                        rows.append((c2, -INF, k + m))  # res <= term + m(1-b)
                    else:
                        rows.append((c, -INF, k))
                        m = (u if u < INF else BIGM) - (bot if bot > -INF else -BIGM)
                        c2 = dict(c)
                        c2[b] = -m
                        rows.append((c2, k - m, INF))
                rows.append(({b: 1.0 for b in choice}, 1.0, 1.0))
        self.lb, self.ub, self.kind = np.array(lb), np.array(ub), kind
        self.n = len(lb)
        self.integrality = np.array([1 if k == "I" else 0 for k in kind])
        for i in range(self.n):
            if kind[i] == "I":
                if lb[i] > -INF:
                    self.lb[i] = math.ceil(lb[i] - 1e-9)
                if ub[i] < INF:
                    self.ub[i] = math.floor(ub[i] + 1e-9)
        if np.any(self.lb > self.ub + 1e-9):
            self.trivially_infeasible = True
        keep = []
        for coefs, lo, hi in rows:
            coefs = {j: a for j, a in coefs.items() if a != 0.0}
            if not coefs:
                if lo > 1e-9 or hi < -1e-9:
                    self.trivially_infeasible = True
                continue
            keep.append((coefs, lo, hi))
        self.A = np.zeros((len(keep), self.n))
        self.lo = np.empty(len(keep))
        self.hi = np.empty(len(keep))
        for r, (coefs, lo, hi) in enumerate(keep):
            for j, a in coefs.items():
                self.A[r, j] = a
            self.lo[r], self.hi[r] = lo, hi
        self.c = np.zeros(self.n)
        for j, a in core.obj.items():
            self.c[j] = a
        if core.maximize:
            self.c = -self.c  # always minimise self.c

    def _milp(self, c, extra=None, fix=None, presolve=True):
        A, lo, hi = self.A, self.lo, self.hi
        if extra is not None:
            A = np.vstack([A, extra[0][None, :]]) if len(A) else extra[0][None, :]
            lo = np.append(lo, extra[1])
            hi = np.append(hi, extra[2])
        lb, ub, integ = self.lb, self.ub, self.integrality
        if fix is not None:
            lb, ub = lb.copy(), ub.copy()
            mask = integ == 1
            lb[mask] = ub[mask] = fix[mask]
            integ = np.zeros(self.n, dtype=int)
        cons = LinearConstraint(A, lo, hi) if len(A) else None
        scale = 1000.0 / max(1.0, float(np.max(np.abs(c)))) if np.any(c) else 1.0
        res = milp(
            c * scale,
            constraints=cons,
            integrality=integ,
            bounds=Bounds(lb, ub),
            options={"mip_rel_gap": 0.0, "presolve": presolve},
        )
        if res.status == 0:
            return "optimal", res.x
        if res.status == 2:
            return "infeasible", None
        if res.status == 3:
            return "unbounded", None
        if np.any(c):  # 'unbounded or infeasible' and similar: decide by feasibility
            status, _ = self._milp(np.zeros(self.n), extra, fix, presolve)
            if status == "infeasible":
                return "infeasible", None
            return "unbounded", None
        raise SimUnsupported(f"HiGHS status {res.status}: {res.message}")

    def _polish(self, x, c, extra=None):
        """Round the integer part and recompute the continuous part for it."""
        fixed = x.copy()
        mask = self.integrality == 1
        fixed[mask] = np.round(fixed[mask])
        if mask.all():
            return fixed if self._feasible(fixed) else None
        try:
            status, y = self._milp(c, extra, fix=fixed)
        except SimUnsupported:
            return None
        if status != "optimal":
            return None
        y[mask] = fixed[mask]
        return y

    def _feasible(self, x, tol=1e-6):
        if len(self.A):
            v = self.A @ x
            if np.any(v < self.lo - tol) or np.any(v > self.hi + tol):
                return False
        return not (np.any(x < self.lb - tol) or np.any(x > self.ub + tol))

    def solve(self):
        if self.trivially_infeasible:
            return "infeasible", None, None
        if self.n == 0:
            return "optimal", np.zeros(0), 0.0
        # HiGHS is sometimes wrong about optimality or feasibility (rarely, and differently with and
        # without presolve): ask twice, keep the better of the solutions that withstand polishing
        answers = [self._milp(self.c)]
        if np.any(self.integrality):
            answers.append(self._milp(self.c, presolve=False))
        found = [self._polish(x, self.c) for status, x in answers if status == "optimal"]
        if not found:
            return answers[0][0], None, None
        found = [(float(self.c @ y), y) for y in found if y is not None]
        if not found:
            raise SimUnsupported("numerical trouble in the simulator's LP polishing step")
        best, y = min(found, key=lambda pair: pair[0])
        return "optimal", y, best

    def alternative(self, best, loss, seed, worst=False):
        """Another solution whose (minimised) objective is at most best + loss."""
        rng = random.Random(seed)
        mask = self.integrality == 1
        d = np.zeros(self.n)
        idx = np.nonzero(mask)[0] if mask.any() else np.arange(self.n)
        for j in idx:
            d[j] = rng.choice((-3.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0)) + 1e-3 * rng.random()
        if worst:
            d = -self.c
        # an objective of random sign on unbounded variables may be unbounded: restrict to bounded
        for j in idx:
            if self.lb[j] == -INF or self.ub[j] == INF:
                d[j] = 0.0
        extra = (self.c, -INF, best + loss) if np.any(self.c) else None
        try:
            status, x = self._milp(d, extra)
        except SimUnsupported:
            return None
        if status != "optimal":
            return None
        y = self._polish(x, self.c, extra)
        if y is None:
            return None
        if float(self.c @ y) > best + loss + 1e-7:
            return None
        return y

    def any_feasible(self, seed):
        """Some feasible solution, objective ignored (an incumbent of an interrupted solve)."""
        rng = random.Random(seed)
        d = np.zeros(self.n)
        for j in range(self.n):
            if self.integrality[j] and self.lb[j] > -INF and self.ub[j] < INF:
                d[j] = rng.uniform(-1, 1)
        status, x = self._milp(d)
        if status != "optimal":
            return None
        y = self._polish(x, np.zeros(self.n))
        return y


def run_solve(core, api):
    """One optimize() call. Returns (status, x, obj, fault) with x perturbed within tolerances."""
    w = world()
    ctx = w.ctx
    call = w.calls
    w.calls += 1
    w.op_calls += 1
    if w.op_calls > w.op_limit or w.calls > 50 * w.budget:
        raise SimBudget(f"more than {w.op_limit} solver calls in one operation")
    ctx.count(f"solves_{api}")
    fault = w.faults.get(call)
    prob = Problem(core)
    if fault is not None:
        kind = fault["kind"]
        w.fired.append((call, kind))
        ctx.count(f"fault_solver_{kind}")
        ctx.log("solver-fault", api, call, kind)
        if kind == "incumbent":
            x = None
            if not prob.trivially_infeasible:
                x = prob.any_feasible(ctx.pick("incumbent", 1 << 16))
            if x is None:
                return "stopped_empty", None, None, fault
            return "stopped", _noise(core, prob, x, ctx, w)[0], _objective(core, x), fault
        return kind, None, None, fault
    status, x, best = prob.solve()
    if status != "optimal":
        ctx.log("solve", api, call, status)
        return status, None, None, None
    if w.alternatives and prob.n:
        seed = ctx.pick("alt", 1 << 16, None)
        if seed:
            loose = max(core.rel_gap * abs(best), core.abs_gap)
            if not prob.integrality.any():
                loose = 0.0  # optimality gaps apply to integer programs only
            loss = 1e-9 * max(1.0, abs(best))
            worst = False
            if loose > 1e-6 * max(1.0, abs(best)):
                # the caller left the optimality gap loose: the solver may stop within it
                loss = 0.999 * loose
                worst = seed % 2 == 0
                ctx.count("loose_gap_solves")
            y = prob.alternative(best, loss, seed, worst)
            if y is not None:
                if np.max(np.abs(y - x)) > 1e-6:
                    ctx.count("alternative_optimum_used")
                x = y
    obj = _objective(core, x)
    x2, dobj = _noise(core, prob, x, ctx, w)
    ctx.log("solve", api, call, "optimal", round(obj, 6))
    return "optimal", x2, obj + dobj, None


def _objective(core, x):
    return core.obj_const + sum(a * x[j] for j, a in core.obj.items())


def _noise(core, prob, x, ctx, w):
    x = [float(v) for v in x[: len(core.lb)]]
    if not w.perturb:
        return x, 0.0
    seed = ctx.pick("noise", 64)
    if seed == 0:
        return x, 0.0
    ctx.count("perturbed_solutions")
    rng = random.Random(seed)
    tol = max(1e-6, core.int_tol)
    for j, kind in enumerate(core.kind):
        if kind == "I":
            x[j] += rng.choice((0.0, 0.0, tol, -tol, tol / 100, -tol / 100)) * rng.random()
        else:
            x[j] += rng.choice((0.0, 1e-9, -1e-9))
    return x, rng.choice((0.0, 1.0, -1.0)) * 1e-8 * rng.random()
