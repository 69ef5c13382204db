#!/opt/venv/bin/python
"""Setup self-test: the simulator's own parts work offline (does not judge the code under test)."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim.core import Ctx  # noqa: E402
from sim.oracle import axioms, rules  # noqa: E402
from sim.solver import fake_gurobipy, fake_mip, fake_ortools, lin  # noqa: E402


def main():
    model = rules.Model(3, [({0, 1}, 1), ({0}, 1), ({2}, 1)])
    assert rules.winners("av", model, 1) == {frozenset({0})}
    assert len(rules.winners("pav", model, 2)) >= 1
    assert axioms.holds("jr", model, [0, 2]) is True
    assert axioms.holds("core", model, [1, 2]) is not None
    ctx = Ctx(1)
    lin.set_world(lin.World(ctx))
    gb = fake_gurobipy.make_module()["gurobipy"]
    m = gb.Model()
    x = m.addVars(3, vtype=gb.GRB.BINARY)
    m.addConstr(gb.quicksum(x[i] for i in range(3)) <= 2)
    m.setObjective(gb.quicksum(x[i] for i in range(3)), gb.GRB.MAXIMIZE)
    m.optimize()
    assert m.Status == gb.GRB.OPTIMAL and round(m.objVal) == 2
    assert "mip" in fake_mip.make_module() and fake_ortools.make_module()
    import gmpy2, networkx, preflibtools, prefsampling, ruamel.yaml  # noqa: F401, E401

    for name in ("evidence", "replays"):
        os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), name), exist_ok=True)
    print("selftest ok")


if __name__ == "__main__":
    main()
