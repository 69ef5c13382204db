"""Every algorithm under every set of usable packages: same outcome, or an error."""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from sim import env, gen, session
from sim.core import REPO, Discard, SimBudget, SimUnsupported, Violation
from sim.oracle import axioms
from sim.oracle import rules as oracle
from sim.solver import lin

CASES = {"quick": 2400, "thorough": 50000}
LEVEL = "exploration"
CASE_LIMIT = 120.0
RULE = (
    "a case imports the library afresh under a chosen availability of gmpy2 and ortools and runs a "
    "history in which the Gurobi licence comes and goes (missing, size-limited): every algorithm of a "
    "rule incl. 'fastest' and the default is run and compared with the model, or all algorithms of an "
    "axiom; an algorithm that cannot run has to raise; non-trivial: at least one outcome was judged"
)
STATES = "distinct (packages, licence, rule or axiom, algorithm, outcome kind) judged"
REAL = ["abcvoting (all modules, freshly imported under the simulated environment)", "networkx"]
STUB = ["gurobipy, mip, ortools (simulated interfaces on HiGHS)", "package availability (import system)",
        "Gurobi licence"]  # fmt: skip
ASSUMPTIONS = [
    "an absent package makes its import fail with ImportError",
    "gurobipy and mip themselves are required packages and always importable",
    "an unusable Gurobi licence makes gurobipy/mip raise when a model is created or solved",
    "reference model of the rules in sim/oracle/rules.py",
]
RULES = tuple(r for r in session.RULES if r not in ("rsd",))
PACKAGES = {"gmpy2": "gmpy2-fractions", "ortools": "ortools-cp"}
_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return _code.get(self.path) or super().get_code(fullname)


class _Finder(importlib.abc.MetaPathFinder):
    """Loads the library from code compiled once per worker."""

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "abcvoting" and not fullname.startswith("abcvoting."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        for file, pkg in ((base + ".py", None), (os.path.join(base, "__init__.py"), [base])):
            if file in _code:
                return importlib.util.spec_from_file_location(
                    fullname, file, loader=_Loader(fullname, file), submodule_search_locations=pkg
                )
        return None


class _Absent(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {fullname!r} (simulated)", name=fullname)
        return None


def setup():
    """Everything but the library itself is imported once; the library in every case."""
    from sim.solver import fake_gurobipy, fake_mip, fake_ortools

    for maker in (fake_gurobipy, fake_mip, fake_ortools):
        for name, mod in maker.make_module().items():
            sys.modules[name] = mod
    import gmpy2  # noqa: F401
    import networkx
    import prefsampling.approval  # noqa: F401
    import prefsampling.ordinal  # noqa: F401
    import prefsampling.point  # noqa: F401
    import preflibtools.instances  # noqa: F401
    import ruamel.yaml  # noqa: F401

    networkx.DiGraph()
    for folder, _, files in os.walk(os.path.join(REPO, "abcvoting")):
        for file in files:
            if file.endswith(".py"):
                path = os.path.join(folder, file)
                with open(path, encoding="utf-8") as f:
                    _code[path] = compile(f.read(), path, "exec")
    env._state["installed"] = "fakes"  # nobody may import the library in this process


def generate(rng, tier, index):
    spec = gen.election(rng, max_m=6 if rng.random() < 0.3 else 4, max_n=6 if rng.random() < 0.3 else 4,
                        weights=rng.choice((("unit",), ("unit", "int"), ("unit", "int", "frac", "large"))))  # fmt: skip
    wide = rng.random() < 0.05
    if wide:
        spec = gen.wide(rng, rng.choice((("unit",), ("unit", "int"))), max_m=10, max_n=9)
    m = spec["m"]
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        licence = rng.choice(("ok", "ok", "ok", "none", 0, 3, 8, 20))
        if rng.random() < 0.75:
            rule = rng.choice(RULES)
            if rng.random() < 0.4:
                rule = rng.choice([r for r in RULES if len(session.RULES[r][0]) > 3])
            if wide and rule == "leximaxphragmen":
                rule = "av"
            k = rng.randint(1, m)
            if wide:
                k = m - rng.randint(1, 2) if rule.startswith("revseq") else rng.randint(1, 3)
            ops.append({"op": "rule", "rule": rule, "k": k, "licence": licence,
                        "resolute": rng.choice(session.RULES[rule][1]),
                        "via": rng.choice(("compute", "rule", "direct", "thiele"))})  # fmt: skip
        else:
            check = session.random_check(rng, [spec], full=0)
            check.update(op="check", licence=licence)
            ops.append(check)
    return {"profiles": [spec], "ops": ops,
            "absent": [x for x in PACKAGES if rng.random() < 0.5]}  # fmt: skip


def execute(workload, ctx):
    absent = set(workload["absent"])
    for name in list(sys.modules):
        if name.split(".")[0] in absent:
            del sys.modules[name]
    sys.meta_path.insert(0, _Absent(absent))
    sys.meta_path.insert(0, _Finder())
    env.import_library()
    for name in absent:
        ctx.count("fault_absent_" + name)
    if not workload["profiles"]:
        raise Discard("no profile")
    p = session.SimProfile(workload["profiles"][0])
    world = lin.World(ctx)
    lin.set_world(world)
    judged = 0
    for number, op in enumerate(workload["ops"]):
        world.licence = op["licence"]
        step = rule_op if op["op"] == "rule" else check_op
        try:
            judged += step(p, op, number, absent, ctx, world)
        except Discard:
            ctx.count("skipped_ops")
        p.verify(f"after step {number}")
    if not judged:
        raise Discard("nothing judged")
    ctx.nontrivial = True


def attempt(call, world):
    """(result, None) or (None, exception) of one library call"""
    try:
        return call(), None
    except (SimUnsupported, SimBudget, Violation, Discard):
        raise
    except Exception as e:  # pylint: disable=broad-except
        from sim.engine import blame

        if blame(e) == "unsupported":
            raise SimUnsupported(f"{type(e).__name__} in simulator: {e}") from e
        return None, e


def rule_op(p, op, number, absent, ctx, world):
    import abcvoting.abcrules as abcrules

    name = op["rule"]
    missing = {PACKAGES[x] for x in absent}
    rule = abcrules.Rule(name)
    known = session.RULES[name][0]
    where = f"step {number}: {name} k={op['k']} resolute={op['resolute']} on {session.voters_str(p)} with {p.m} candidates, absent packages {sorted(absent)}, licence {op['licence']}"
    usable = [a for a in rule.algorithms if a not in missing]
    if list(rule.available_algorithms) != usable:
        raise Violation("availability", f"{where}: available_algorithms {rule.available_algorithms}, should be {usable}")
    if set(rule.algorithms) - set(known):
        ctx.count("unknown_algorithms")
    done = 0
    for alg in list(rule.algorithms) + ["fastest", None]:
        if alg not in (None, "fastest") and alg not in known:
            continue
        real = alg
        if alg in (None, "fastest"):
            real = usable[0] if usable else None
        this = {**op, "alg": real or known[0], "max": None}
        try:
            session.legal_compute(p, this)
        except Discard:
            if real == "ortools-cp":
                continue
            raise
        expected = oracle.winners(name, p.model(), op["k"])
        world.begin_op(200 + 60 * p.m + 12 * len(p.voters) + 3 * len(expected) * (op["k"] + 1)
                       if name != "maximin-support" else 100000)  # fmt: skip
        fired = len(world.fired)

        def call(alg=alg):
            if alg is None:
                return abcrules.compute(name, p.real, op["k"], resolute=op["resolute"])
            return session.call_rule(p.real, {**this, "alg": alg})

        result, error = attempt(call, world)
        refused = len(world.fired) > fired
        tag = f" [step {number}, asked for {alg}, absent {sorted(absent)}, licence {op['licence']}]"
        if error is not None:
            if alg in missing or refused or not usable:
                if not str(error) and not isinstance(error, ImportError):
                    raise Violation("silent-error", f"{where}: {alg} raised {error!r}")
                ctx.count("refused")
                ctx.log("refused", name, str(alg), type(error).__name__)
                ctx.state(tuple(sorted(absent)), op["licence"], name, alg, "refused")
                continue
            raise Violation("crash", f"{where}: algorithm {alg} raised {type(error).__name__}: {str(error)[:300]}")
        session.judge(p, this, result, ctx, tag)
        done += 1
        ctx.log("judged", name, str(alg), sorted(sorted(int(c) for c in com) for com in result))
        ctx.state(tuple(sorted(absent)), op["licence"], name, alg, "judged")
        ctx.count("rule_calls")
    return done


def check_op(p, op, number, absent, ctx, world):
    done = 0
    for alg in list(axioms.ALGS[op["prop"]]) + [None]:
        this = {**op, "alg": alg, "fastest": False}
        session.legal_check(p, {**this, "alg": alg or axioms.ALGS[op["prop"]][0]})
        quota = op.get("quota")
        want = axioms.holds(op["prop"], p.model(), op["com"], session.num(quota) if quota is not None else None)
        world.begin_op(60)
        fired = len(world.fired)
        result, error = attempt(lambda this=this: session.call_check(p.real, this), world)
        where = f"step {number}: {session.describe_check(p, this)}, absent {sorted(absent)}, licence {op['licence']}"
        if error is not None:
            if len(world.fired) > fired:
                ctx.count("refused")
                ctx.state(tuple(sorted(absent)), op["licence"], op["prop"], alg, "refused")
                continue
            raise Violation("crash", f"{where} raised {type(error).__name__}: {str(error)[:300]}")
        if want is None:
            continue
        if not isinstance(result, bool) or result != want:
            raise Violation("wrong-verdict", f"{where}: {result!r}, correct: {want}")
        done += 1
        ctx.log("checked", op["prop"], str(alg), result)
        ctx.state(tuple(sorted(absent)), op["licence"], op["prop"], alg, result)
        ctx.count("axiom_checks")
    return done
