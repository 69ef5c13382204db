"""Simulated `ortools.sat.python.cp_model` (CP-SAT): linear constraints over integer variables."""

import math
import numbers
import types

from sim.core import SimUnsupported
from sim.solver import lin
from sim.solver.expr import Operand, row_of

UNKNOWN, MODEL_INVALID, FEASIBLE, INFEASIBLE, OPTIMAL = 0, 1, 2, 3, 4
INT_MIN, INT_MAX = -(2**63), 2**63 - 1
_NAMES = {0: "UNKNOWN", 1: "MODEL_INVALID", 2: "FEASIBLE", 3: "INFEASIBLE", 4: "OPTIMAL"}
_EMPTY = [UNKNOWN, MODEL_INVALID]


def _integral(v):
    return isinstance(v, numbers.Integral) or (
        isinstance(v, numbers.Number) and type(v).__module__ == "numpy" and float(v).is_integer()
    )


class LinearExpr(Operand):
    __slots__ = ("t", "k")

    def __init__(self, t=None, k=0):
        self.t, self.k = t if t is not None else {}, k

    @staticmethod
    def number_ok(v):
        return isinstance(v, numbers.Number) and not isinstance(v, complex)

    @staticmethod
    def _num(v):
        if _integral(v):
            return int(v)
        return float(v)

    @classmethod
    def _coerce(cls, other):
        if isinstance(other, LinearExpr):
            return other._terms()
        if isinstance(other, (bool, int)) or _integral(other):
            return {}, int(other)
        if isinstance(other, float):
            return {}, other
        return None

    def __mul__(self, other):
        if isinstance(other, LinearExpr):
            return Operand.__mul__(self, other)
        if not (isinstance(other, (bool, int, float)) or _integral(other)):
            return NotImplemented
        return Operand.__mul__(self, other)

    __rmul__ = __mul__

    def __truediv__(self, other):
        raise TypeError("calling / on a linear expression is not supported")

    def __lt__(self, other):
        return self <= other - 1 if not isinstance(other, LinearExpr) else (self - other) <= -1

    def __gt__(self, other):
        return self >= other + 1 if not isinstance(other, LinearExpr) else (self - other) >= 1

    def __ne__(self, other):
        raise SimUnsupported("cp_model !=")

    def __floordiv__(self, other):
        raise TypeError("calling // on a linear expression is not supported")

    def _terms(self):
        return self.t, self.k

    @classmethod
    def Sum(cls, *exprs):
        if len(exprs) == 1 and not isinstance(exprs[0], (LinearExpr, int)):
            exprs = tuple(exprs[0])
        res = LinearExpr()
        for e in exprs:
            res = res + e
        return res

    sum = Sum

    @classmethod
    def WeightedSum(cls, exprs, coeffs):
        res = LinearExpr()
        for e, c in zip(exprs, coeffs):
            res = res + e * c
        return res

    weighted_sum = ScalProd = WeightedSum

    @classmethod
    def Term(cls, e, c):
        return e * c

    term = Term
    __eq__ = Operand.__eq__
    __hash__ = Operand.__hash__


class BoundedLinearExpression:
    def __init__(self, diff, sense):
        self.diff, self.sense = diff, sense

    def __bool__(self):
        t, k = self.diff._terms()
        if not t:
            return {"<=": k <= 0, ">=": k >= 0, "==": k == 0}[self.sense]
        if self.sense == "==" and len(t) == 2 and k == 0:
            (v1, a1), (v2, a2) = t.items()
            if a1 == -a2:
                return v1.index == v2.index
        raise NotImplementedError("Evaluating a BoundedLinearExpression as a Boolean value")


Operand_con = BoundedLinearExpression
LinearExpr.expr_type = LinearExpr
LinearExpr.con_type = BoundedLinearExpression


class IntVar(LinearExpr):
    __slots__ = ("model", "index", "name")

    def __init__(self, model, index, name):
        self.model, self.index, self.name = model, index, name

    def _terms(self):
        return {self: 1}, 0

    def Name(self):
        return self.name

    def Index(self):
        return self.index

    def Not(self):
        return _Not(self)

    negated = Not
    __invert__ = Not

    def __hash__(self):
        return hash((id(self.model), self.index))

    __eq__ = Operand.__eq__

    def __repr__(self):
        return self.name


class _Not(LinearExpr):
    __slots__ = ("var",)

    def __init__(self, var):
        self.var = var

    def _terms(self):
        return {self.var: -1}, 1

    def Not(self):
        return self.var

    negated = Not
    __invert__ = Not
    __hash__ = Operand.__hash__


class Constraint:
    def __init__(self, model, row):
        self.model, self.row = model, row

    def OnlyEnforceIf(self, *literals):
        lits = []
        for lit in literals:
            if isinstance(lit, (list, tuple)):
                lits.extend(lit)
            else:
                lits.append(lit)
        if len(lits) != 1:
            raise SimUnsupported("OnlyEnforceIf with several literals")
        (lit,) = lits
        core = self.model._core
        for i, row in enumerate(core.rows):
            if row is self.row:
                del core.rows[i]
                break
        if isinstance(lit, _Not):
            var, value = lit.var, False
        elif isinstance(lit, IntVar):
            var, value = lit, True
        elif isinstance(lit, (bool, int)):
            if lit:
                core.rows.append(self.row)
            return self
        else:
            raise TypeError("invalid literal")
        coefs, lo, hi = self.row
        core.indicators.append((var.index, value, coefs, lo, hi))
        return self

    only_enforce_if = OnlyEnforceIf

    def WithName(self, name):
        return self

    with_name = WithName

    def Index(self):
        return 0


class CpModel:
    def __init__(self):
        w = lin.world()
        fault = w.next_fault()
        if fault is not None and fault["kind"] == "model_error" and not fault.get("used"):
            fault["used"] = True
            w.fired.append((w.calls, "model_error"))
            w.ctx.count("fault_solver_model_error")
            raise MemoryError("cannot allocate CP-SAT model (simulated)")
        w.models += 1
        self._core = lin.Core()
        self._core.rel_gap = self._core.abs_gap = 0.0
        self._core.int_tol = 0.0

    def NewIntVar(self, lb, ub, name):
        if not (_integral(lb) and _integral(ub)):
            raise TypeError("bounds must be integers")
        return IntVar(self, self._core.add_var(lb, ub, "I", name), name)

    def NewBoolVar(self, name):
        return self.NewIntVar(0, 1, name)

    def NewConstant(self, value):
        return self.NewIntVar(value, value, "")

    def Add(self, ct):
        core = self._core
        if isinstance(ct, (bool,)) or type(ct).__name__ in ("bool_", "bool"):
            row = ({}, 0.0, 0.0) if ct else ({}, 1.0, 1.0)
        elif isinstance(ct, BoundedLinearExpression):
            t, k = ct.diff._terms()
            for a in list(t.values()) + [k]:
                if not isinstance(a, int):
                    raise TypeError("Non-integer coefficient in a linear constraint")
            row = row_of(ct.diff, ct.sense)
        else:
            raise TypeError(f"not supported: CpModel.Add({type(ct).__name__!r})")
        core.rows.append(row)
        return Constraint(self, row)

    def AddLinearConstraint(self, expr, lb, ub):
        self.Add(expr >= lb)
        return self.Add(expr <= ub)

    def AddBoolOr(self, *lits):
        lits = lits[0] if len(lits) == 1 and isinstance(lits[0], (list, tuple)) else lits
        return self.Add(LinearExpr.Sum(list(lits)) >= 1)

    def AddExactlyOne(self, *lits):
        lits = lits[0] if len(lits) == 1 and not isinstance(lits[0], LinearExpr) else lits
        return self.Add(LinearExpr.Sum(list(lits)) == 1)

    def AddAtMostOne(self, *lits):
        lits = lits[0] if len(lits) == 1 and not isinstance(lits[0], LinearExpr) else lits
        return self.Add(LinearExpr.Sum(list(lits)) <= 1)

    def AddImplication(self, a, b):
        return self.Add(a <= b)

    def AddMaxEquality(self, target, exprs):
        raise SimUnsupported("AddMaxEquality")

    def AddMinEquality(self, target, exprs):
        raise SimUnsupported("AddMinEquality")

    def _objective(self, expr, maximize):
        core = self._core
        if isinstance(expr, LinearExpr):
            t, k = expr._terms()
        elif isinstance(expr, (int, float)):
            t, k = {}, expr
        else:
            raise TypeError(f"objective {type(expr)}")
        core.obj, core.obj_const = {}, float(k)
        for v, a in t.items():
            core.obj[v.index] = core.obj.get(v.index, 0.0) + float(a)
        core.maximize = maximize

    def Maximize(self, expr):
        self._objective(expr, True)

    def Minimize(self, expr):
        self._objective(expr, False)

    def HasObjective(self):
        return bool(self._core.obj)

    def AddHint(self, *a):
        pass

    def Validate(self):
        return ""

    new_int_var, new_bool_var, new_constant = NewIntVar, NewBoolVar, NewConstant
    add, add_linear_constraint, add_bool_or = Add, AddLinearConstraint, AddBoolOr
    add_exactly_one, add_at_most_one = AddExactlyOne, AddAtMostOne
    add_implication, maximize, minimize = AddImplication, Maximize, Minimize
    add_hint, add_max_equality, add_min_equality = AddHint, AddMaxEquality, AddMinEquality
    has_objective, validate = HasObjective, Validate
    AddAtLeastOne = add_at_least_one = AddBoolOr

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"CpModel.{name}")


class CpSolver:
    def __init__(self):
        self.parameters = types.SimpleNamespace()
        self._solution = None
        self._objval = None
        self._status = UNKNOWN

    def Solve(self, model, solution_callback=None):
        if solution_callback is not None:
            raise SimUnsupported("solution callback")
        status, x, obj, fault = lin.run_solve(model._core, "ortools")
        self._solution, self._objval = None, None
        if fault is not None:
            if status == "stopped":
                self._status, self._solution, self._objval = FEASIBLE, x, obj
            elif status in ("error", "model_error"):
                raise MemoryError("CP-SAT ran out of memory (simulated)")
            else:
                self._status = _EMPTY[lin.world().ctx.pick("status", len(_EMPTY))]
        elif status == "optimal":
            self._status, self._solution, self._objval = OPTIMAL, x, obj
        elif status == "infeasible":
            self._status = INFEASIBLE
        else:
            self._status = MODEL_INVALID
        if self._solution is not None:
            self._solution = [round(v) for v in self._solution]
            self._objval = float(round(self._objval)) if self._objval is not None else None
        return self._status

    def Value(self, expr):
        if isinstance(expr, (bool, int)):
            return int(expr)
        if self._solution is None:
            raise RuntimeError("solve() has not been called.")
        t, k = expr._terms()
        return k + sum(a * self._solution[v.index] for v, a in t.items())

    def Values(self, exprs):
        return [self.Value(e) for e in exprs]

    def BooleanValue(self, lit):
        return bool(self.Value(lit))

    def ObjectiveValue(self):
        if self._solution is None:
            raise RuntimeError("solve() has not been called.")
        return self._objval

    BestObjectiveBound = ObjectiveValue

    def StatusName(self, status=None):
        return _NAMES[self._status if status is None else status]

    def WallTime(self):
        return 0.0

    UserTime = WallTime
    solve, value, values, boolean_value, status_name = Solve, Value, Values, BooleanValue, StatusName

    @property
    def objective_value(self):
        return self.ObjectiveValue()

    best_objective_bound = objective_value

    @property
    def wall_time(self):
        return 0.0

    user_time = wall_time

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"CpSolver.{name}")


def make_module():
    ortools = types.ModuleType("ortools")
    sat = types.ModuleType("ortools.sat")
    python = types.ModuleType("ortools.sat.python")
    cp = types.ModuleType("ortools.sat.python.cp_model")
    for name in (
        "UNKNOWN MODEL_INVALID FEASIBLE INFEASIBLE OPTIMAL INT_MIN INT_MAX LinearExpr "
        "BoundedLinearExpression IntVar Constraint CpModel CpSolver"
    ).split():
        setattr(cp, name, globals()[name])

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"cp_model.{name}")

    cp.__getattr__ = __getattr__
    ortools.sat, sat.python, python.cp_model = sat, python, cp
    ortools.__version__ = "9.15"
    for m in (ortools, sat, python):
        m.__path__ = []
    return {
        "ortools": ortools,
        "ortools.sat": sat,
        "ortools.sat.python": python,
        "ortools.sat.python.cp_model": cp,
    }
