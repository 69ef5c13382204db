"""Simulated `gurobipy` (the subset of the modelling API a client of this size plausibly uses)."""

import itertools
import math
import sys
import types

from sim.core import SimUnsupported
from sim.solver import lin
from sim.solver.expr import Operand, is_number, row_of


class ApiAttributeError(AttributeError):
    """What the real gurobipy raises when a solution is read that does not exist."""

    simulated_api = True


class GurobiError(Exception):
    def __init__(self, errno=None, message=None):
        super().__init__(message if message is not None else errno)
        self.errno = errno if isinstance(errno, int) else None
        self.message = message if message is not None else errno


class _Names:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return name


class GRB:
    BINARY, INTEGER, CONTINUOUS, SEMICONT, SEMIINT = "B", "I", "C", "S", "N"
    MINIMIZE, MAXIMIZE = 1, -1
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="
    INFINITY = 1e100
    MAXINT = 2000000000
    UNDEFINED = 1e101
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF = 1, 2, 3, 4, 5, 6
    ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT = 7, 8, 9, 10
    INTERRUPTED, NUMERIC, SUBOPTIMAL, INPROGRESS, USER_OBJ_LIMIT = 11, 12, 13, 14, 15
    WORK_LIMIT, MEM_LIMIT = 16, 17
    Param = param = _Names()
    Attr = attr = _Names()
    Callback = callback = _Names()

    class Status:
        LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF = 1, 2, 3, 4, 5, 6
        ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT = 7, 8, 9, 10
        INTERRUPTED, NUMERIC, SUBOPTIMAL, INPROGRESS, USER_OBJ_LIMIT = 11, 12, 13, 14, 15
        WORK_LIMIT, MEM_LIMIT = 16, 17

    status = Status


GRB.Error = GRB.error = type("Error", (), {"OUT_OF_MEMORY": 10001, "NO_LICENSE": 10009})

_STOPPED = [
    GRB.TIME_LIMIT,
    GRB.INTERRUPTED,
    GRB.SUBOPTIMAL,
    GRB.SOLUTION_LIMIT,
    GRB.NODE_LIMIT,
    GRB.ITERATION_LIMIT,
    GRB.WORK_LIMIT,
    GRB.MEM_LIMIT,
    GRB.USER_OBJ_LIMIT,
    GRB.NUMERIC,
]
_EMPTY = [
    GRB.TIME_LIMIT,
    GRB.INTERRUPTED,
    GRB.NODE_LIMIT,
    GRB.ITERATION_LIMIT,
    GRB.WORK_LIMIT,
    GRB.MEM_LIMIT,
    GRB.NUMERIC,
]


class _Op(Operand):
    __slots__ = ()

    @classmethod
    def _coerce(cls, other):
        if isinstance(other, _Op):
            return other._terms()
        if is_number(other):
            return {}, float(other)
        return None

    def __iadd__(self, other):
        return self + other

    def __isub__(self, other):
        return self - other

    def __lt__(self, other):
        raise TypeError("'<' not supported between Gurobi objects")

    __gt__ = __lt__
    __hash__ = Operand.__hash__


class LinExpr(_Op):
    __slots__ = ("t", "k")

    def __init__(self, arg1=0.0, arg2=None):
        if isinstance(arg1, dict):
            self.t, self.k = arg1, arg2
        elif isinstance(arg1, _Op):
            t, k = arg1._terms()
            self.t, self.k = dict(t), k
        elif is_number(arg1) and arg2 is None:
            self.t, self.k = {}, float(arg1)
        elif arg2 is not None:
            self.t, self.k = {}, 0.0
            if is_number(arg1):
                arg1, arg2 = [arg1], [arg2]
            for a, v in zip(arg1, arg2):
                self.addTerms(a, v)
        else:
            self.t, self.k = {}, 0.0
            for a, v in arg1:
                self.addTerms(a, v)

    def _terms(self):
        return self.t, self.k

    def __iadd__(self, other):
        self.add(other)
        return self

    def add(self, other, mult=1.0):
        o = self._coerce(other)
        if o is None:
            raise GurobiError(f"Unsupported type ({type(other)}) for LinExpr addition argument")
        for v, a in o[0].items():
            self.t[v] = self.t.get(v, 0.0) + mult * a
        self.k += mult * o[1]

    def addTerms(self, coeffs, variables):
        if is_number(coeffs):
            coeffs, variables = [coeffs], [variables]
        for a, v in zip(coeffs, variables):
            self.t[v] = self.t.get(v, 0.0) + float(a)

    def addConstant(self, c):
        self.k += float(c)

    def getValue(self):
        return self.k + sum(a * v.X for v, a in self.t.items())

    def getConstant(self):
        return self.k

    def size(self):
        return len(self.t)

    def getVar(self, i):
        return list(self.t)[i]

    def getCoeff(self, i):
        return list(self.t.values())[i]

    def copy(self):
        return LinExpr(dict(self.t), self.k)

    def clear(self):
        self.t, self.k = {}, 0.0

    __hash__ = Operand.__hash__


class TempConstr:
    def __init__(self, diff, sense):
        self.diff, self.sense = diff, sense

    def __rshift__(self, other):
        if not isinstance(other, TempConstr):
            raise GurobiError("indicator requires a linear constraint")
        t, k = self.diff._terms()
        if self.sense != "==" or len(t) != 1:
            raise GurobiError("Invalid indicator condition")
        ((v, a),) = t.items()
        return GenExprIndicator(v, round(-k / a), other)

    def __bool__(self):
        raise TypeError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")


class GenExprIndicator:
    def __init__(self, var, value, con):
        self.var, self.value, self.con = var, value, con


class GenExprExtremum:
    def __init__(self, args, const, sign):
        self.args, self.const, self.sign = args, const, sign

    def __eq__(self, other):
        return ExtremumConstr(other, self)

    __hash__ = None


class ExtremumConstr:
    def __init__(self, res, expr):
        self.res, self.expr = res, expr


_Op.expr_type = LinExpr
_Op.con_type = TempConstr


def _eq(self, other):
    if isinstance(other, GenExprExtremum):
        return ExtremumConstr(self, other)
    return Operand._compare(self, other, "==")


_Op.__eq__ = _eq
_Op.__hash__ = Operand.__hash__
LinExpr.__eq__ = _eq
LinExpr.__hash__ = Operand.__hash__


class Var(_Op):
    __slots__ = ("model", "index", "_attrs")

    def __init__(self, model, index):
        self.model, self.index = model, index
        self._attrs = {}

    def _terms(self):
        return {self: 1.0}, 0.0

    __eq__ = _eq

    def __hash__(self):
        return hash((id(self.model), self.index))

    def __getattr__(self, name):
        low = name.lower()
        if low.startswith("__"):
            raise AttributeError(name)
        core = self.model._core
        if low in ("x", "xn"):
            sol = self.model._solution
            if sol is None or self.index >= len(sol):
                raise ApiAttributeError(f"Unable to retrieve attribute '{name}'")
            return sol[self.index]
        if low == "varname":
            return core.names[self.index]
        if low == "lb":
            return core.lb[self.index]
        if low == "ub":
            return core.ub[self.index]
        if low == "vtype":
            return "C" if core.kind[self.index] == "C" else "I"
        if low == "obj":
            return core.obj.get(self.index, 0.0)
        if low == "index":
            return self.index
        if low in ("start", "hint", "varhintval", "branchpriority", "varhintpri"):
            return self._attrs.get(low, GRB.UNDEFINED)
        raise SimUnsupported(f"gurobipy Var.{name}")

    def __setattr__(self, name, value):
        if name in ("model", "index", "_attrs"):
            object.__setattr__(self, name, value)
            return
        low = name.lower()
        core = self.model._core
        if low == "lb":
            core.lb[self.index] = float(value)
        elif low == "ub":
            core.ub[self.index] = float(value)
        elif low == "obj":
            core.obj[self.index] = float(value)
        elif low == "vtype":
            core.kind[self.index] = "C" if value == "C" else "I"
            if value == "B":
                core.lb[self.index] = max(0.0, core.lb[self.index])
                core.ub[self.index] = min(1.0, core.ub[self.index])
        elif low == "varname":
            core.names[self.index] = value
        elif low in ("start", "varhintval", "branchpriority", "varhintpri"):
            self._attrs[low] = value
        else:
            raise SimUnsupported(f"gurobipy Var.{name} =")

    def getAttr(self, name):
        return getattr(self, name)

    def setAttr(self, name, value):
        setattr(self, name, value)

    def __repr__(self):
        return f"<gurobi.Var {self.model._core.names[self.index]}>"


class tuplelist(list):
    def select(self, *pattern):
        return tuplelist(k for k in self if _match(k, pattern))


def _match(key, pattern):
    if not pattern:
        return True
    if not isinstance(key, tuple):
        key = (key,)
    return len(key) == len(pattern) and all(
        p == "*" or (k in p if isinstance(p, (list, set, tuple)) else k == p)
        for k, p in zip(key, pattern)
    )


class tupledict(dict):
    def select(self, *pattern):
        return [v for k, v in self.items() if _match(k, pattern)]

    def sum(self, *pattern):
        return quicksum(self.select(*pattern))

    def prod(self, coeff, *pattern):
        return quicksum(coeff[k] * v for k, v in self.items() if k in coeff and _match(k, pattern))

    def keys(self):
        return tuplelist(super().keys())


def quicksum(items):
    res = LinExpr()
    for item in items:
        res.add(item)
    return res


def _indices(indices):
    dims = []
    for ind in indices:
        if isinstance(ind, int) and not isinstance(ind, bool):
            dims.append(list(range(ind)))
        elif hasattr(ind, "__iter__") and not isinstance(ind, str):
            dims.append(list(ind))
        else:
            dims.append([ind])
    if len(dims) == 1:
        return dims[0]
    return [
        tuple(itertools.chain.from_iterable(p if isinstance(p, tuple) else (p,) for p in combo))
        for combo in itertools.product(*dims)
    ]


def _per(value, keys, i, key):
    if isinstance(value, dict):
        return value[key]
    if isinstance(value, (list, tuple)):
        return value[i]
    return value


class Constr:
    def __init__(self, model, kind, obj):
        self.model, self.kind, self.obj = model, kind, obj

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"gurobipy Constr.{name}")


class _Params:
    def __init__(self, model):
        object.__setattr__(self, "_m", model)

    def __setattr__(self, name, value):
        self._m.setParam(name, value)

    def __getattr__(self, name):
        return self._m._params.get(name.lower(), 0)


_IGNORED_PARAMS = {
    "outputflag", "feasibilitytol", "optimalitytol", "poolsearchmode", "mipfocus",
    "integralityfocus", "logtoconsole", "logfile", "threads", "seed", "presolve", "method",
    "timelimit", "numericfocus", "heuristics", "cuts", "symmetry", "worklimit", "memlimit",
    "softmemlimit", "nodelimit", "solutionlimit", "iterationlimit", "poolsolutions", "poolgap",
    "dualreductions", "infunbdinfo", "aggregate", "scaleflag", "crossover", "concurrentmip",
    "lazyconstraints", "solutionnumber", "nonconvex", "markowitztol", "quad", "displayinterval",
    "bestobjstop", "bestbdstop", "presparsify", "varbranch", "nodemethod", "objscale",
    "aggfill", "predual", "preqlinearize", "submipnodes", "rins", "zeroobjnodes", "pumppasses",
    "norelheurtime", "norelheurwork", "improvestarttime", "improvestartgap", "degenmoves",
    "networkalg", "sifting", "simplexpricing", "perturbvalue", "normadjust", "barconvtol",
    "barhomogeneous", "barorder", "barcorrectors", "bariterlimit", "concurrentmethod",
    "disconnected", "nodefilestart", "nodefiledir", "jsonsoldetail", "record", "csidlelimit",
}  # fmt: skip


class Env:
    def __init__(self, *args, **kwargs):
        self.params = dict(kwargs.get("params") or {})
        _maybe_license_fault()

    def setParam(self, name, value):
        self.params[name] = value

    def start(self):
        pass

    def dispose(self):
        pass

    close = dispose

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


def _maybe_license_fault():
    w = lin.world()
    if w.licence_problem():
        raise GurobiError(10009, "No Gurobi license found (simulated)")
    fault = w.next_fault()
    if fault is not None and fault["kind"] == "model_error" and not fault.get("used"):
        fault["used"] = True
        w.fired.append((w.calls, "model_error"))
        w.ctx.count("fault_solver_model_error")
        raise GurobiError(10009, "No Gurobi license found (simulated)")


class Model:
    def __init__(self, name="", env=None):
        _maybe_license_fault()
        self._core = lin.Core()
        self._core.rel_gap = 1e-4
        self._core.int_tol = 1e-5
        self._vars = []
        self._params = {}
        self._status = GRB.LOADED
        self._solution = None
        self._objval = None
        self._name = name
        self.Params = self.params = _Params(self)
        lin.world().models += 1
        if env is not None and isinstance(env, Env):
            for k, v in env.params.items():
                self.setParam(k, v)

    # -- building
    def addVar(self, lb=0.0, ub=math.inf, obj=0.0, vtype="C", name="", column=None):
        ub = math.inf if ub >= 1e20 else ub
        lb = -math.inf if lb <= -1e20 else lb
        if vtype not in ("C", "B", "I"):
            raise SimUnsupported(f"vtype {vtype}")
        if column is not None:
            raise SimUnsupported("Column")
        if vtype == "B" and ub > 1:
            ub = 1.0
        index = self._core.add_var(lb, ub, vtype, name or f"C{len(self._core.lb)}")
        if obj:
            self._core.obj[index] = float(obj)
        var = Var(self, index)
        self._vars.append(var)
        return var

    def addVars(self, *indices, lb=0.0, ub=math.inf, obj=0.0, vtype="C", name=""):
        keys = _indices(indices)
        res = tupledict()
        for i, key in enumerate(keys):
            label = key if not isinstance(key, tuple) else ",".join(map(str, key))
            nm = name[i] if isinstance(name, (list, tuple)) else f"{name or 'C'}[{label}]"
            res[key] = self.addVar(
                lb=_per(lb, keys, i, key),
                ub=_per(ub, keys, i, key),
                obj=_per(obj, keys, i, key),
                vtype=_per(vtype, keys, i, key) if not isinstance(vtype, str) else vtype,
                name=nm,
            )
        return res

    def addMVar(self, *a, **k):
        raise SimUnsupported("addMVar")

    def addConstr(self, con, name="", *rest):
        if rest:  # addConstr(lhs, sense, rhs[, name])
            sense, rhs = name, rest[0]
            con = {"<": con <= rhs, ">": con >= rhs, "=": con == rhs}[sense[0]]
        core = self._core
        if isinstance(con, TempConstr):
            row = row_of(con.diff, con.sense)
            core.rows.append(row)
            return Constr(self, "row", row)
        if isinstance(con, GenExprIndicator):
            coefs, lo, hi = row_of(con.con.diff, con.con.sense)
            ind = (con.var.index, bool(con.value), coefs, lo, hi)
            core.indicators.append(ind)
            return Constr(self, "ind", ind)
        if isinstance(con, ExtremumConstr):
            e = con.expr
            return self._add_extremum(con.res, e.args, e.const, e.sign)
        raise GurobiError(f"Constraint has no bool value / unsupported constraint {con!r}")

    def addLConstr(self, *args, **kwargs):
        return self.addConstr(*args, **kwargs)

    def addConstrs(self, generator, name=""):
        return tupledict((i, self.addConstr(c)) for i, c in enumerate(generator))

    def addRange(self, expr, lower, upper, name=""):
        expr = LinExpr(expr)
        self.addConstr(expr <= upper)
        return self.addConstr(expr >= lower)

    def _add_extremum(self, resvar, args, const, sign):
        idx = []
        for a in args:
            if isinstance(a, Var):
                idx.append(a.index)
            elif is_number(a):
                const = float(a) if const is None else (max if sign > 0 else min)(const, float(a))
            else:
                raise GurobiError("Invalid argument to addGenConstrMax/Min")
        if not isinstance(resvar, Var):
            raise GurobiError("Invalid result variable")
        if not idx and const is None:
            raise GurobiError("Empty general constraint")
        ext = (resvar.index, idx, const, sign)
        self._core.extrema.append(ext)
        return Constr(self, "ext", ext)

    def addGenConstrMax(self, resvar, vars, constant=None, name=""):
        vars = list(vars.values()) if isinstance(vars, dict) else list(vars)
        return self._add_extremum(resvar, vars, constant, 1)

    def addGenConstrMin(self, resvar, vars, constant=None, name=""):
        vars = list(vars.values()) if isinstance(vars, dict) else list(vars)
        return self._add_extremum(resvar, vars, constant, -1)

    def addGenConstrIndicator(self, binvar, binval, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            con = lhs
        else:
            lhs = LinExpr(lhs)
            con = {"<": lhs <= rhs, ">": lhs >= rhs, "=": lhs == rhs}[sense[0]]
        return self.addConstr(GenExprIndicator(binvar, binval, con))

    def addGenConstrOr(self, resvar, vars, name=""):
        return self.addGenConstrMax(resvar, vars)

    def addGenConstrAnd(self, resvar, vars, name=""):
        return self.addGenConstrMin(resvar, vars)

    def remove(self, obj):
        if isinstance(obj, dict):
            obj = list(obj.values())
        if isinstance(obj, (list, tuple)):
            for o in obj:
                self.remove(o)
            return
        if isinstance(obj, Constr):
            pool = {
                "row": self._core.rows, "ind": self._core.indicators, "ext": self._core.extrema
            }[obj.kind]  # fmt: skip
            for i, entry in enumerate(pool):
                if entry is obj.obj:
                    del pool[i]
                    return
        raise SimUnsupported("Model.remove")

    def setObjective(self, expr, sense=None):
        core = self._core
        if is_number(expr):
            core.obj, core.obj_const = {}, float(expr)
        elif isinstance(expr, _Op):
            t, k = expr._terms()
            core.obj, core.obj_const = {}, float(k)
            for v, a in t.items():
                core.obj[v.index] = core.obj.get(v.index, 0.0) + float(a)
        else:
            raise GurobiError(f"Unable to convert argument to an expression: {expr!r}")
        if sense is None:
            # gurobipy: without the sense argument the ModelSense attribute decides
            sense = self._params.get("modelsense", GRB.MINIMIZE)
        core.maximize = sense == GRB.MAXIMIZE

    def setObjectiveN(self, *a, **k):
        raise SimUnsupported("setObjectiveN")

    def getObjective(self):
        return LinExpr({self._vars[i]: a for i, a in self._core.obj.items()}, self._core.obj_const)

    def setParam(self, name, value):
        low = name.lower()
        self._params[low] = value
        if low == "mipgap":
            self._core.rel_gap = float(value)
        elif low == "mipgapabs":
            self._core.abs_gap = float(value)
        elif low == "intfeastol":
            self._core.int_tol = float(value)
        elif low not in _IGNORED_PARAMS:
            raise SimUnsupported(f"Gurobi parameter {name}")

    def update(self):
        pass

    def write(self, *a):
        pass

    def dispose(self):
        pass

    close = dispose

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def reset(self, clearall=0):
        self._status, self._solution, self._objval = GRB.LOADED, None, None

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return [Constr(self, "row", r) for r in self._core.rows]

    def getVarByName(self, name):
        for v in self._vars:
            if self._core.names[v.index] == name:
                return v
        return None

    def copy(self):
        raise SimUnsupported("Model.copy")

    # -- solving
    def optimize(self, callback=None):
        if callback is not None:
            raise SimUnsupported("optimize callback")
        if lin.world().licence_problem(len(self._core.lb)):
            raise GurobiError(10010, "Model too large for size-limited license (simulated)")
        status, x, obj, fault = lin.run_solve(self._core, "gurobi")
        self._solution, self._objval = None, None
        ctx = lin.world().ctx
        if fault is not None:
            if fault["kind"] == "stopped" or status == "stopped":
                self._status = _STOPPED[ctx.pick("status", len(_STOPPED))]
                self._solution, self._objval = x, obj
                return
            if status in ("error", "model_error"):
                raise GurobiError(10001, "Out of memory (simulated)")
            self._status = _EMPTY[ctx.pick("status", len(_EMPTY))]
            return
        if status == "optimal":
            self._status, self._solution, self._objval = GRB.OPTIMAL, x, obj
        elif status == "infeasible":
            self._status = GRB.INFEASIBLE
        else:
            self._status = GRB.UNBOUNDED

    def computeIIS(self):
        raise SimUnsupported("computeIIS")

    def terminate(self):
        pass

    def __getattr__(self, name):
        low = name.lower()
        if low.startswith("_"):
            raise AttributeError(name)
        if low == "status":
            return self._status
        if low in ("objval", "poolobjval"):
            if self._objval is None:
                raise ApiAttributeError(f"Unable to retrieve attribute '{name}'")
            return self._objval
        if low in ("objbound", "objboundc", "poolobjbound"):
            if self._objval is None:
                raise ApiAttributeError(f"Unable to retrieve attribute '{name}'")
            return self._objval
        if low == "mipgap":
            return 0.0
        if low == "solcount":
            return 0 if self._solution is None else 1
        if low == "modelsense":
            return GRB.MAXIMIZE if self._core.maximize else GRB.MINIMIZE
        if low == "numvars":
            return len(self._vars)
        if low in ("numconstrs",):
            return len(self._core.rows)
        if low == "numgenconstrs":
            return len(self._core.indicators) + len(self._core.extrema)
        if low in ("ismip",):
            return int(any(k == "I" for k in self._core.kind))
        if low == "modelname":
            return self._name
        if low in ("runtime", "work", "nodecount", "itercount"):
            return 0.0
        raise SimUnsupported(f"gurobipy Model.{name}")

    def __setattr__(self, name, value):
        if name.startswith("_") or name in ("Params", "params"):
            object.__setattr__(self, name, value)
            return
        low = name.lower()
        if low == "modelsense":
            self._params["modelsense"] = value
            self._core.maximize = value == GRB.MAXIMIZE
        elif low == "modelname":
            self._name = value
        else:
            object.__setattr__(self, name, value)

    def getAttr(self, name, objs=None):
        if objs is None:
            return getattr(self, name)
        if isinstance(objs, dict):
            return tupledict((k, getattr(v, name)) for k, v in objs.items())
        return [getattr(v, name) for v in objs]

    def setAttr(self, name, *args):
        if len(args) == 1:
            setattr(self, name, args[0])
        else:
            raise SimUnsupported("Model.setAttr on objects")


def max_(*args, constant=None):
    args = args[0] if len(args) == 1 and not isinstance(args[0], Var) else args
    args = list(args.values()) if isinstance(args, dict) else list(args)
    return GenExprExtremum(args, constant, 1)


def min_(*args, constant=None):
    args = args[0] if len(args) == 1 and not isinstance(args[0], Var) else args
    args = list(args.values()) if isinstance(args, dict) else list(args)
    return GenExprExtremum(args, constant, -1)


or_, and_ = max_, min_


def multidict(data):
    raise SimUnsupported("multidict")


def setParam(name, value):
    pass


def disposeDefaultEnv():
    pass


class gurobi:
    @staticmethod
    def version():
        return (13, 0, 3)


def make_module():
    mod = types.ModuleType("gurobipy")
    for name in (
        "GRB Model Var LinExpr TempConstr tupledict tuplelist quicksum Env GurobiError Constr "
        "max_ min_ or_ and_ multidict setParam disposeDefaultEnv gurobi"
    ).split():
        setattr(mod, name, globals()[name])
    mod.__version__ = "13.0.3"

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"gurobipy.{name}")

    mod.__getattr__ = __getattr__
    mod.__path__ = []
    return {"gurobipy": mod}
