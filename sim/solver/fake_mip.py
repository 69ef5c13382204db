"""Simulated `mip` (Python-MIP): the subset of the modelling API a client of this size uses."""

import enum
import math
import types

from sim.core import SimUnsupported
from sim.solver import lin
from sim.solver.expr import Operand, is_number, row_of

BINARY, CONTINUOUS, INTEGER = "B", "C", "I"
CBC, GUROBI, GRB, HIGHS, CPLEX = "CBC", "GUROBI", "GRB", "HIGHS", "CPX"
MAXIMIZE, MINIMIZE, MAX, MIN = "MAX", "MIN", "MAX", "MIN"
EQUAL, LESS_OR_EQUAL, GREATER_OR_EQUAL = "=", "<", ">"
INF = math.inf
EPS = 10e-64


class MipBaseException(Exception):
    pass


class InterfacingError(MipBaseException):
    pass


class ProgrammingError(MipBaseException):
    pass


class SolutionNotAvailable(MipBaseException):
    pass


class InvalidLinExpr(MipBaseException):
    pass


class InvalidParameter(MipBaseException):
    pass


class ParameterNotAvailable(MipBaseException):
    pass


class InfeasibleSolution(MipBaseException):
    pass


class OptimizationStatus(enum.Enum):
    ERROR = -1
    OPTIMAL = 0
    INFEASIBLE = 1
    UNBOUNDED = 2
    FEASIBLE = 3
    INT_INFEASIBLE = 4
    NO_SOLUTION_FOUND = 5
    LOADED = 6
    CUTOFF = 7
    OTHER = 10000


class SearchEmphasis(enum.Enum):
    DEFAULT = 0
    FEASIBILITY = 1
    OPTIMALITY = 2


class LP_Method(enum.Enum):
    AUTO = 0
    DUAL = 1
    PRIMAL = 2
    BARRIER = 3
    BARRIERNOCROSS = 4


_S = OptimizationStatus
_STOPPED = [_S.FEASIBLE, _S.OTHER]
_EMPTY = [_S.NO_SOLUTION_FOUND, _S.ERROR, _S.OTHER]


class _Op(Operand):
    __slots__ = ()

    @classmethod
    def _coerce(cls, other):
        if isinstance(other, _Op):
            return other._terms()
        if is_number(other):
            return {}, float(other)
        return None

    __eq__ = Operand.__eq__
    __hash__ = Operand.__hash__


class LinExpr(_Op):
    __slots__ = ("t", "k", "con_sense", "obj_sense")

    def __init__(self, variables=(), coeffs=(), const=0.0, sense=""):
        if isinstance(variables, dict):
            self.t, self.k = variables, float(coeffs)
        else:
            self.t, self.k = {}, float(const)
            for v, a in zip(variables, coeffs):
                self.t[v] = self.t.get(v, 0.0) + float(a)
        self.con_sense = sense or ""
        self.obj_sense = ""

    def _terms(self):
        return self.t, self.k

    def __iadd__(self, other):
        self.add_term(other)
        return self

    def __isub__(self, other):
        self.add_term(other, -1)
        return self

    def add_term(self, term, coeff=1):
        o = self._coerce(term)
        if o is None:
            raise TypeError(f"type {type(term)} not supported")
        for v, a in o[0].items():
            self.t[v] = self.t.get(v, 0.0) + coeff * a
        self.k += coeff * o[1]

    add_expr = add_var = add_term

    def add_const(self, value):
        self.k += value

    @property
    def const(self):
        return self.k

    @property
    def expr(self):
        return self.t

    @property
    def sense(self):
        return self.con_sense

    @property
    def x(self):
        return self.k + sum(a * v.x for v, a in self.t.items())

    def copy(self):
        res = LinExpr(dict(self.t), self.k)
        res.con_sense, res.obj_sense = self.con_sense, self.obj_sense
        return res

    def __len__(self):
        return len(self.t)

    def __bool__(self):
        return True

    __hash__ = Operand.__hash__


class Var(_Op):
    __slots__ = ("model", "index")

    def __init__(self, model, index):
        self.model, self.index = model, index

    def _terms(self):
        return {self: 1.0}, 0.0

    def __hash__(self):
        return hash((id(self.model), self.index))

    __eq__ = Operand.__eq__

    @property
    def x(self):
        sol = self.model._solution
        if sol is None or self.index >= len(sol):
            return None
        return sol[self.index]

    def xi(self, i):
        return self.x

    @property
    def name(self):
        return self.model._core.names[self.index]

    @property
    def idx(self):
        return self.index

    @property
    def lb(self):
        return self.model._core.lb[self.index]

    @lb.setter
    def lb(self, v):
        self.model._core.lb[self.index] = float(v)

    @property
    def ub(self):
        return self.model._core.ub[self.index]

    @ub.setter
    def ub(self, v):
        self.model._core.ub[self.index] = float(v)

    @property
    def obj(self):
        return self.model._core.obj.get(self.index, 0.0)

    @obj.setter
    def obj(self, v):
        self.model._core.obj[self.index] = float(v)

    @property
    def var_type(self):
        return "C" if self.model._core.kind[self.index] == "C" else "I"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"mip Var.{name}")


_Op.expr_type = LinExpr


def _con(diff, sense):
    res = LinExpr(dict(diff._terms()[0]), diff._terms()[1])
    res.con_sense = {"<=": "<", ">=": ">", "==": "="}[sense]
    return res


_Op.con_type = staticmethod(_con)


def xsum(terms):
    result = LinExpr()
    for term in terms:
        result.add_term(term)
    return result


def _objective(expr, sense):
    if isinstance(expr, Var):
        expr = LinExpr({expr: 1.0}, 0.0)
    elif is_number(expr):
        expr = LinExpr({}, expr)
    else:
        expr = expr.copy()
    expr.obj_sense = sense
    return expr


def maximize(objective):
    return _objective(objective, MAXIMIZE)


def minimize(objective):
    return _objective(objective, MINIMIZE)


class Constr:
    def __init__(self, model, idx):
        self.model, self.idx = model, idx


class _VarList(list):
    pass


class Model:
    def __init__(self, name="", sense=MINIMIZE, solver_name="", solver=None):
        w = lin.world()
        fault = w.next_fault()
        if fault is not None and fault["kind"] == "model_error" and not fault.get("used"):
            fault["used"] = True
            w.fired.append((w.calls, "model_error"))
            w.ctx.count("fault_solver_model_error")
            raise InterfacingError("solver not available (simulated)")
        if str(solver_name).upper() in ("GUROBI", "GRB") and w.licence_problem():
            raise InterfacingError("Gurobi environment could not be loaded, check your license (simulated)")
        w.models += 1
        d = object.__setattr__
        d(self, "_core", lin.Core())
        self._core.rel_gap, self._core.abs_gap, self._core.int_tol = 1e-4, 1e-10, 1e-6
        self._core.maximize = sense == MAXIMIZE
        d(self, "_vars", _VarList())
        d(self, "_solution", None)
        d(self, "_objval", None)
        d(self, "_status", _S.LOADED)
        d(self, "name", name)
        d(self, "solver_name", solver_name or "CBC")
        for key, val in dict(
            verbose=1, emphasis=SearchEmphasis.DEFAULT, opt_tol=1e-6, infeas_tol=1e-6,
            threads=0, seed=0, preprocess=-1, cuts=-1, lp_method=LP_Method.AUTO, round_int_vars=True,
            sol_pool_size=10, max_seconds=math.inf, max_nodes=1 << 30, max_solutions=1 << 30,
            cut_passes=-1, clique=-1, pump_passes=-1, store_search_progress_log=False,
        ).items():  # fmt: skip
            d(self, key, val)

    def add_var(self, name="", lb=0.0, ub=math.inf, obj=0.0, var_type=CONTINUOUS, column=None):
        if column is not None:
            raise SimUnsupported("Column")
        index = self._core.add_var(float(lb), float(ub), var_type, name or f"var({len(self._vars)})")
        if obj:
            self._core.obj[index] = float(obj)
        var = Var(self, index)
        self._vars.append(var)
        return var

    def add_var_tensor(self, *a, **k):
        raise SimUnsupported("add_var_tensor")

    def add_constr(self, lin_expr, name="", priority=None):
        if isinstance(lin_expr, bool):
            raise InvalidLinExpr(
                "A boolean (true/false) cannot be used as a constraint."
            )
        if not isinstance(lin_expr, LinExpr):
            raise TypeError(f"type {type(lin_expr)} not supported")
        sense = {"<": "<=", ">": ">=", "=": "=="}[lin_expr.con_sense]
        self._core.rows.append(row_of(lin_expr, sense))
        return Constr(self, len(self._core.rows) - 1)

    def __iadd__(self, other):
        if isinstance(other, tuple):
            other = other[0]
        if isinstance(other, LinExpr):
            if other.con_sense == "":
                self.objective = other
            else:
                self.add_constr(other)
            return self
        if isinstance(other, bool):
            raise InvalidLinExpr("A boolean (true/false) cannot be used as a constraint.")
        if isinstance(other, Var):
            self.objective = other
            return self
        raise TypeError(f"type {type(other)} not supported")

    def _set_objective(self, objective):
        core = self._core
        if isinstance(objective, Var):
            core.obj, core.obj_const = {objective.index: 1.0}, 0.0
            return
        if is_number(objective):
            core.obj, core.obj_const = {}, float(objective)
            return
        if not isinstance(objective, LinExpr):
            raise TypeError(f"type {type(objective)} not supported")
        t, k = objective._terms()
        core.obj, core.obj_const = {}, float(k)
        for v, a in t.items():
            core.obj[v.index] = core.obj.get(v.index, 0.0) + float(a)
        if objective.obj_sense:
            core.maximize = objective.obj_sense == MAXIMIZE

    def optimize(self, max_seconds=math.inf, *args, relax=False, **kwargs):
        if relax:
            raise SimUnsupported("optimize(relax=True)")
        if self.solver_name.upper() in ("GUROBI", "GRB"):
            if lin.world().licence_problem(len(self._core.lb)):
                raise InterfacingError("Model too large for size-limited license (simulated)")
        status, x, obj, fault = lin.run_solve(self._core, "mip")
        d = object.__setattr__
        d(self, "_solution", None)
        d(self, "_objval", None)
        ctx = lin.world().ctx
        if fault is not None:
            if status == "stopped":
                d(self, "_status", _STOPPED[ctx.pick("status", len(_STOPPED))])
                d(self, "_solution", x)
                d(self, "_objval", obj)
            elif status in ("error", "model_error"):
                raise InterfacingError("solver crashed (simulated)")
            else:
                d(self, "_status", _EMPTY[ctx.pick("status", len(_EMPTY))])
            return self._status
        if status == "optimal":
            d(self, "_status", _S.OPTIMAL)
            d(self, "_solution", x)
            d(self, "_objval", obj)
        else:
            d(self, "_status", _S.INFEASIBLE if status == "infeasible" else _S.UNBOUNDED)
        return self._status

    @property
    def objective(self):
        return LinExpr({self._vars[i]: a for i, a in self._core.obj.items()}, self._core.obj_const)

    @objective.setter
    def objective(self, value):
        self._set_objective(value)

    def __setattr__(self, name, value):
        if name == "max_mip_gap":
            self._core.rel_gap = float(value)
        elif name == "max_mip_gap_abs":
            self._core.abs_gap = float(value)
        elif name == "integer_tol":
            self._core.int_tol = float(value)
        elif name == "sense":
            self._core.maximize = value == MAXIMIZE
        elif name == "objective":
            self._set_objective(value)
        elif name == "start":
            pass
        else:
            object.__setattr__(self, name, value)

    @property
    def max_mip_gap(self):
        return self._core.rel_gap

    @property
    def max_mip_gap_abs(self):
        return self._core.abs_gap

    @property
    def integer_tol(self):
        return self._core.int_tol

    @property
    def sense(self):
        return MAXIMIZE if self._core.maximize else MINIMIZE

    @property
    def objective_value(self):
        return self._objval

    @property
    def objective_bound(self):
        return self._objval

    @property
    def gap(self):
        return 0.0

    @property
    def status(self):
        return self._status

    @property
    def num_solutions(self):
        return 0 if self._solution is None else 1

    @property
    def vars(self):
        return self._vars

    @property
    def num_cols(self):
        return len(self._vars)

    @property
    def num_rows(self):
        return len(self._core.rows)

    @property
    def num_int(self):
        return sum(1 for k in self._core.kind if k == "I")

    def var_by_name(self, name):
        for v in self._vars:
            if v.name == name:
                return v
        return None

    def clear(self):
        raise SimUnsupported("Model.clear")

    def write(self, path):
        pass

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise SimUnsupported(f"mip Model.{name}")


def make_module():
    mod = types.ModuleType("mip")
    exported = (
        "BINARY CONTINUOUS INTEGER CBC GUROBI GRB HIGHS CPLEX MAXIMIZE MINIMIZE MAX MIN EQUAL "
        "LESS_OR_EQUAL GREATER_OR_EQUAL INF EPS MipBaseException InterfacingError "
        "ProgrammingError SolutionNotAvailable InvalidLinExpr InvalidParameter "
        "ParameterNotAvailable InfeasibleSolution OptimizationStatus SearchEmphasis LP_Method "
        "LinExpr Var xsum maximize minimize Constr Model"
    ).split()
    for name in exported:
        setattr(mod, name, globals()[name])
    mod.__all__ = exported

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"mip.{name}")

    mod.__getattr__ = __getattr__
    mod.__path__ = []
    res = {"mip": mod}
    for sub, names in (
        ("mip.exceptions", "MipBaseException InterfacingError ProgrammingError "
         "SolutionNotAvailable InvalidLinExpr InvalidParameter ParameterNotAvailable "
         "InfeasibleSolution"),
        ("mip.constants", "BINARY CONTINUOUS INTEGER CBC GUROBI GRB MAXIMIZE MINIMIZE EQUAL "
         "LESS_OR_EQUAL GREATER_OR_EQUAL INF OptimizationStatus SearchEmphasis LP_Method"),
        ("mip.entities", "LinExpr Var Constr"),
        ("mip.model", "Model xsum maximize minimize"),
    ):  # fmt: skip
        m = types.ModuleType(sub)
        for name in names.split():
            setattr(m, name, globals()[name])
        setattr(mod, sub.split(".")[1], m)
        res[sub] = m
    return res
