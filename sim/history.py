"""Shared driver: a history of edits and rule computations against simulated solvers and faults.

workload = {"profiles": [spec], "ops": [op], "faults": [{"at", "kind"}], ...}
A compute op may carry "int": {"kind", "at"} (an interrupt at the at-th executed library line)."""

from sim import scoreops, session
from sim.core import Discard, Violation
from sim.solver import lin

CALLS = {"compute": session.compute_op, "check": session.check_op, "score": scoreops.score_op}


def run(workload, ctx, world_kwargs=None, after=None, retry=True):
    profiles = [session.SimProfile(spec) for spec in workload["profiles"]]
    if not profiles:
        raise Discard("no profile")
    world = lin.World(ctx, faults=workload.get("faults", ()), **(world_kwargs or {}))
    lin.set_world(world)
    done = 0
    try:
        for number, op in enumerate(workload["ops"]):
            if op["op"] in CALLS:
                p = profiles[op["p"] % len(profiles)]
                done += run_compute(p, op, number, ctx, world, retry)
            else:
                session.edit_op(profiles, op, ctx)
            for i, q in enumerate(profiles):
                q.verify(f"after step {number} ({op['op']}), profile {i}")
            if after is not None:
                after(number, op, profiles)
    finally:
        lin.set_world(None)
    if done == 0 and not any(op["op"] not in CALLS for op in workload["ops"]):
        raise Discard("no usable operation")
    if done:
        ctx.nontrivial = True
    return profiles


def run_compute(p, op, number, ctx, world, retry=True):
    perform = CALLS[op["op"]]
    try:
        status = perform(
            p, op, ctx, world, interrupt=op.get("int"), tag=f" [step {number}]"
        )
    except Discard as d:
        ctx.count("skipped_ops")
        ctx.log("skipped", str(d))
        return 0
    if status != "ok" and retry:
        # the failure must not have left anything behind: the same call now has to work
        saved, world.faults = world.faults, {}
        p.verify(f"after {status} call in step {number}")
        try:
            again = perform(p, op, ctx, world, tag=f" [step {number}, retry]")
        except Violation as v:
            raise v.within("after-failure") from v
        finally:
            world.faults = saved
        if again != "ok":
            raise Violation("retry-failed", f"step {number}: {op}")
        ctx.count("retries_after_failure")
    return 1


def interrupts(rng, ops, share=0.5, kinds=("kbd", "mem", "sys")):
    """attach interrupts to some compute ops"""
    for op in ops:
        if op["op"] in CALLS and rng.random() < share:
            op["int"] = session.random_cut(rng, kinds)
    return ops
