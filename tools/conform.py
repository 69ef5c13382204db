#!/opt/venv/bin/python
"""Conformance of the simulated solver packages with the installed real ones.

    conform.py [N] [SEED]

Random small models are written once against the package interface and run against the real
package (gurobipy with its size-limited licence, CBC through mip, CP-SAT) and against the simulated
one, in many simulated worlds. Status and optimal objective value must agree, and the solution the
simulated package reports must satisfy the model. Not part of the checks: it judges the simulator."""

import ast
import enum
import math
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from sim.core import Ctx, SimUnsupported  # noqa: E402
from sim.solver import fake_gurobipy, fake_mip, fake_ortools, lin  # noqa: E402


def spec(rng):
    """a random model: variables (type, lb, ub), rows (coeffs, sense, rhs), objective"""
    n = rng.randint(1, 5)
    kinds = [rng.choice("BBIC") for _ in range(n)]
    variables = []
    for kind in kinds:
        if kind == "B":
            variables.append(("B", 0, 1))
        else:
            lb = rng.choice((0, 0, 0, -2, 1))
            variables.append((kind, lb, lb + rng.randint(0, 5)))
    rows = []
    for _ in range(rng.randint(0, 4)):
        coeffs = [rng.choice((0, 1, 1, -1, 2, 3)) for _ in range(n)]
        rows.append((coeffs, rng.choice("<>="), rng.randint(-1, 6)))
    obj = [rng.choice((0, 1, 1, -1, 2, 5)) for _ in range(n)]
    return variables, rows, obj, rng.choice((True, False)), rng.randint(-2, 2)


def rowcon(expr, sense, rhs):
    return expr <= rhs if sense == "<" else expr >= rhs if sense == ">" else expr == rhs


def gurobi(gb, model_spec, style):
    variables, rows, obj, maximize, const = model_spec
    env = None
    if style % 2:
        env = gb.Env(empty=True)
        env.setParam("OutputFlag", 0)
        env.start()
        m = gb.Model(env=env)
    else:
        m = gb.Model()
    m.setParam("OutputFlag", False)
    m.setParam(gb.GRB.Param.MIPGap, 1e-8)
    if style % 3 == 0:
        xs = [m.addVar(lb=lb, ub=ub, vtype=kind, name=f"x{i}") for i, (kind, lb, ub) in enumerate(variables)]
    else:
        d = m.addVars(len(variables), vtype=[v[0] for v in variables], lb=[v[1] for v in variables],
                      ub=[v[2] for v in variables], name="x")
        xs = [d[i] for i in range(len(variables))]
    for coeffs, sense, rhs in rows:
        if style % 4 == 0:
            e = gb.quicksum(c * x for c, x in zip(coeffs, xs))
        elif style % 4 == 1:
            e = gb.LinExpr()
            for c, x in zip(coeffs, xs):
                e += x * c
        elif style % 4 == 2:
            e = gb.LinExpr(coeffs, xs)
        else:
            e = sum((c * x for c, x in zip(coeffs, xs)), gb.LinExpr(0))
        m.addConstr(rowcon(e, sense, rhs))
    m.setObjective(gb.quicksum(c * x for c, x in zip(obj, xs)) + const,
                   gb.GRB.MAXIMIZE if maximize else gb.GRB.MINIMIZE)
    m.optimize()
    names = {gb.GRB.OPTIMAL: "optimal", gb.GRB.INFEASIBLE: "infeasible", gb.GRB.INF_OR_UNBD: "infeasible",
             gb.GRB.UNBOUNDED: "unbounded"}
    status = names.get(m.Status, m.Status)
    if status != "optimal":
        return status, None, None, m.SolCount
    return status, m.ObjVal, [x.X for x in xs], min(m.SolCount, 1)


def mip(mp, model_spec, style):
    variables, rows, obj, maximize, const = model_spec
    m = mp.Model(sense=mp.MAXIMIZE if maximize else mp.MINIMIZE, solver_name=mp.CBC)
    m.verbose = 0
    m.max_mip_gap = 1e-9
    types = {"B": mp.BINARY, "I": mp.INTEGER, "C": mp.CONTINUOUS}
    xs = [m.add_var(var_type=types[k], lb=lb, ub=ub, name=f"x{i}") for i, (k, lb, ub) in enumerate(variables)]
    for coeffs, sense, rhs in rows:
        e = mp.xsum(c * x for c, x in zip(coeffs, xs))
        if style % 2:
            m += rowcon(e, sense, rhs)
        else:
            m.add_constr(rowcon(e, sense, rhs))
    e = mp.xsum(c * x for c, x in zip(obj, xs)) + const
    if style % 3 == 0:
        m.objective = e
    else:
        m.objective = mp.maximize(e) if maximize else mp.minimize(e)
    status = m.optimize()
    names = {mp.OptimizationStatus.OPTIMAL: "optimal", mp.OptimizationStatus.INFEASIBLE: "infeasible",
             mp.OptimizationStatus.INT_INFEASIBLE: "infeasible", mp.OptimizationStatus.UNBOUNDED: "unbounded"}
    status = names.get(status, status)
    if status != "optimal":
        return status, None, None, m.num_solutions
    return status, m.objective_value, [x.x for x in xs], min(m.num_solutions, 1)


def cpsat(cp, model_spec, style):
    variables, rows, obj, maximize, const = model_spec
    snake = style % 2
    m = cp.CpModel()
    xs = []
    for i, (k, lb, ub) in enumerate(variables):
        if k == "B":
            xs.append(m.new_bool_var(f"x{i}") if snake else m.NewBoolVar(name=f"x{i}"))
        else:
            xs.append(m.new_int_var(lb, ub, f"x{i}") if snake else m.NewIntVar(lb, ub, f"x{i}"))
    for coeffs, sense, rhs in rows:
        e = sum(c * x for c, x in zip(coeffs, xs)) if style % 3 else cp.LinearExpr.WeightedSum(xs, coeffs)
        if style % 3 and not any(True for _ in coeffs):
            continue
        (m.add if snake else m.Add)(rowcon(e, sense, rhs))
    e = sum(c * x for c, x in zip(obj, xs)) + const
    if maximize:
        (m.maximize if snake else m.Maximize)(e)
    else:
        (m.minimize if snake else m.Minimize)(e)
    s = cp.CpSolver()
    s.parameters.num_workers = 1
    status = (s.solve if snake else s.Solve)(m)
    names = {cp.OPTIMAL: "optimal", cp.INFEASIBLE: "infeasible"}
    status = names.get(status, status)
    if status != "optimal":
        return status, None, None, 0
    value = s.value if snake else s.Value
    return status, (s.objective_value if snake else s.ObjectiveValue()), [value(x) for x in xs], 1


def satisfied(model_spec, values, integral_tol=1e-4):
    variables, rows, _, _, _ = model_spec
    for (kind, lb, ub), v in zip(variables, values):
        if not lb - 1e-4 <= v <= ub + 1e-4:
            return False
        if kind != "C" and abs(v - round(v)) > integral_tol:
            return False
    for coeffs, sense, rhs in rows:
        lhs = sum(c * v for c, v in zip(coeffs, values))
        gap = {"<": lhs - rhs, ">": rhs - lhs, "=": abs(lhs - rhs)}[sense]
        if gap > 1e-3:
            return False
    return True


def forked(program, real, model_spec, style):
    """run in a child: CBC itself crashes on some models"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 1)
        os.dup2(null, 2)
        try:
            want = program(real, model_spec, style)
        except Exception as e:  # pylint: disable=broad-except
            want = (type(e).__name__, None, None, None)
        os.write(wfd, repr(tuple(w if not isinstance(w, enum.Enum) else str(w) for w in want)).encode())
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return ast.literal_eval(text) if text else None


def main():
    number = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    import gurobipy
    import mip as realmip
    from ortools.sat.python import cp_model

    fakes = {
        "gurobi": (gurobi, gurobipy, fake_gurobipy.make_module()["gurobipy"]),
        "mip": (mip, realmip, fake_mip.make_module()["mip"]),
        "cpsat": (cpsat, cp_model, fake_ortools.make_module()["ortools.sat.python.cp_model"]),
    }
    bad = 0
    tally = {}
    for name, (program, real, fake) in fakes.items():
        for i in range(number):
            rng = random.Random(f"{seed}/{name}/{i}")
            model_spec = spec(rng)
            if name == "cpsat":
                model_spec = ([("I" if k == "C" else k, lb, ub) for k, lb, ub in model_spec[0]],) + model_spec[1:]
            style = rng.randrange(12)
            want = forked(program, real, model_spec, style)
            if want is None:
                tally[(name, "real package crashed")] = tally.get((name, "real package crashed"), 0) + 1
                continue
            for world in range(3):
                lin.set_world(lin.World(Ctx(world)))
                try:
                    got = program(fake, model_spec, style)
                except SimUnsupported:
                    tally[(name, "unsupported")] = tally.get((name, "unsupported"), 0) + 1
                    continue
                except Exception as e:  # pylint: disable=broad-except
                    got = (type(e).__name__, None, None, None)
                finally:
                    lin.set_world(None)
                ok = want[0] == got[0] and want[3] == got[3]
                if ok and want[0] == "optimal":
                    ok = math.isclose(want[1], got[1], abs_tol=1e-4) and satisfied(model_spec, got[2])
                tally[(name, want[0])] = tally.get((name, want[0]), 0) + 1
                if not ok:
                    bad += 1
                    if bad < 10:
                        print(name, "style", style, model_spec, "real", want, "simulated", got)
    for key, n in sorted(tally.items(), key=str):
        print(*key, n)
    print("disagreements:", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
