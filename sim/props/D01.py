"""Instances survive saving to and loading from .abc.yaml files."""

import io

from sim import env, files, gen, session, simfs
from sim.core import Ctx, Discard, Violation

CASES = {"quick": 6000, "thorough": 80000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULE = (
    "a case is a seeded history of 3-10 saves, loads, overwrites, re-saves of loaded instances, hand-"
    "written files, profile edits, restarts and moves to another machine (other locale and line ends) "
    "on a simulated disk that may transfer any part of a block per read or write; every load is compared "
    "with the instance last saved there, every saved file is also parsed independently; non-trivial: "
    "at least one instance was loaded"
)
STATES = "distinct (operation, #voters, #candidates, weights, committee size given, #compute entries, locale, line ends)"
REAL = ["abcvoting.fileio", "abcvoting.preferences", "abcvoting.misc", "ruamel.yaml"]
STUB = ["file system (in-memory, short reads/writes, locale and platform line ends)"]
ASSUMPTIONS = [
    "ruamel.yaml parses the text it is given correctly (used for the independent parse)",
    "texts without runs of blanks (ruamel.yaml folds them in long lines) and without control characters",
    "candidate names are not part of the .abc.yaml format",
]


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    insts = [files.instance(rng) for _ in range(rng.choice((1, 2, 2, 3)))]
    ops = []
    for _ in range(rng.randint(3, 10)):
        kind = rng.choice(("save", "save", "save", "load", "load", "resave", "put", "edit", "machine", "restart"))
        op = {"op": kind, "f": rng.choice(files.YAML_FILES), "i": rng.randrange(len(insts)),
              "form": rng.choice(("rel", "rel", "abs", "path", "dot")), "style": rng.randrange(100)}  # fmt: skip
        if kind == "resave":
            op["to"] = rng.choice(files.YAML_FILES)
        if kind == "machine":
            op["locale"] = rng.choice(("utf-8", "cp1252", "ascii", "utf-16", "iso8859-15"))
            op["newline"] = rng.choice((None, "\r\n", "\n"))
        if kind == "edit":
            m = insts[op["i"]]["m"]
            op["edit"] = session.random_edit(rng, [insts[op["i"]]], ("int", "unit"))
            op["edit"]["p"] = 0
            if op["edit"]["op"] == "copy":
                op["edit"]["op"] = "merge"
            del m
        if rng.random() < 0.3:
            op["faults"] = [{"at": rng.randint(1, 14), "kind": "short"} for _ in range(3)]
        ops.append(op)
    return {"instances": insts, "ops": ops, "locale": rng.choice(("utf-8", "utf-8", "cp1252", "ascii")),
            "newline": rng.choice((None, None, "\r\n"))}  # fmt: skip


def independent(data, want, where):
    """The saved text itself says what it should."""
    import ruamel.yaml

    doc = ruamel.yaml.YAML(typ="safe", pure=True).load(io.StringIO(data.decode("utf-8")))
    got = {
        "m": doc["num_cand"],
        "voters": [(sorted(a), w) for a, w in zip(doc["profile"], doc.get("voter_weights") or [1] * len(doc["profile"]))],
        "k": doc.get("committeesize"),
        "desc": doc.get("description"),
    }
    if len(doc["profile"]) != len(got["voters"]) or any(got[key] != want[key] for key in got):
        raise Violation("file-content", f"{where}: the file says {got}, saved was {want}")


def load(fs, name, form, want, where, ctx):
    from abcvoting import fileio

    got = fileio.read_abcvoting_yaml_file(files.address(name, form))
    seen = files.observed_yaml(got)
    for key in ("m", "voters", "k", "desc", "compute"):
        if not files.same_numbers(seen[key], want[key]):
            raise Violation("round-trip", f"{where}: {name} gives {key} = {seen[key]}, saved was {want[key]}")
    ctx.nontrivial = True
    ctx.log("load", fs.label(name), len(seen["voters"]))
    return got


def execute(workload, ctx):
    from abcvoting import fileio

    insts = [files.Instance(spec) for spec in workload["instances"]]
    if not insts:
        raise Discard("no instance")
    fs = simfs.SimFS(ctx, workload["locale"], workload["newline"])
    fs.mkdir_direct("sub")
    disk = {}
    with fs:
        for number, op in enumerate(workload["ops"]):
            where = f"step {number} ({op['op']})"
            name, kind = op["f"], op["op"]
            inst = insts[op["i"] % len(insts)]
            fs.begin(op.get("faults", ()))
            try:
                if kind == "save":
                    fileio.write_abcvoting_instance_to_yaml_file(
                        files.address(name, op["form"]), inst.p.real, committeesize=inst.k,
                        compute_instances=inst.live_compute(op["style"]), description=inst.desc,
                    )  # fmt: skip
                    disk[name] = inst.canonical()
                    independent(fs.get(name), disk[name], where)
                    inst.p.verify(where)
                elif kind == "put":
                    inst2 = inst
                    fs.end()
                    fs.put(name, files.yaml_text(inst2, op["style"]))
                    disk[name] = inst2.canonical()
                elif kind == "load" and name in disk:
                    load(fs, name, op["form"], disk[name], where, ctx)
                elif kind == "resave" and name in disk:
                    profile, k, compute_instances, data = load(fs, name, op["form"], disk[name], where, ctx)
                    want = disk[name]
                    fileio.write_abcvoting_instance_to_yaml_file(
                        files.address(op["to"], op["form"]), profile, committeesize=k,
                        compute_instances=compute_instances or None, description=data.get("description"),
                    )  # fmt: skip
                    disk[op["to"]] = want
                    independent(fs.get(op["to"]), want, where)
                elif kind == "edit":
                    try:
                        session.edit_op([inst.p], op["edit"], ctx)
                    except Discard:
                        pass
                elif kind == "machine":
                    fs.locale, fs.newline = op["locale"], op["newline"]
                elif kind == "restart":
                    fs.sync_all()
                    fs.restart()
            finally:
                fs.end()
            ctx.state(kind, len(inst.p.voters), inst.p.m, inst.p.unit(), inst.k is None,
                      len(inst.compute or ()), fs.locale, fs.newline)  # fmt: skip
        for name in sorted(disk):
            load(fs, name, "rel", disk[name], "at the end", ctx)
