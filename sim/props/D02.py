"""PrefLib reading and writing preserves ballots, multiplicities and names."""

from sim import env, files, session, simfs
from sim.core import Discard, Violation

CASES = {"quick": 16000, "thorough": 100000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULE = (
    "a case is a seeded history of 3-10 writes of profiles, readings (as weights or individual voters), "
    "foreign ordinal and categorical files read with top_ranks or setsize, directory loads, profile edits "
    "and moves to another machine on a simulated disk that may transfer any part of a block; every profile "
    "read is compared with the votes listed; non-trivial: at least one profile was read"
)
STATES = "distinct (file kind, parameters, weights form, #voters, #candidates, #votes) of profiles read"
REAL = ["abcvoting.fileio", "abcvoting.preferences", "preflibtools"]
STUB = ["file system (in-memory, short reads/writes, listing order, locale and platform line ends)"]
ASSUMPTIONS = [
    "files list every vote once (preflibtools keeps the last of several identical lines)",
    "profiles with at least one voter (a PrefLib file without votes cannot be read)",
    "candidate names are single-line and without surrounding blanks",
]


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    profs = [files.ballots(rng, ("unit", "small", "intfloat"), min_n=1) for _ in range(rng.choice((1, 2)))]
    foreign = [files.preflib(rng) for _ in range(rng.choice((1, 2, 3)))]
    ops = []
    for _ in range(rng.randint(3, 10)):
        kind = rng.choice(("write", "write", "read", "read", "foreign", "foreign", "dir", "edit", "machine"))
        op = {"op": kind, "f": rng.choice(files.CAT_FILES), "i": rng.randrange(3),
              "form": rng.choice(("rel", "rel", "abs", "dot")), "weights": rng.random() < 0.5}  # fmt: skip
        if kind in ("foreign", "dir"):
            op.update(files.top_or_size(rng))
            if rng.random() < 0.1:
                op.update(refuse=True, **rng.choice(
                    ({"top": rng.randint(1, 4), "set": rng.randint(1, 7)}, {"top": rng.choice((0, -1, -3)), "set": None},
                     {"top": None, "set": rng.choice((0, -1, -3))})))  # fmt: skip
        if kind == "edit":
            op["edit"] = session.random_edit(rng, [profs[op["i"] % len(profs)]], ("small",) if False else ("int", "unit"))
            op["edit"]["p"] = 0
            if op["edit"]["op"] == "copy":
                op["edit"]["op"] = "merge"
        if kind == "machine":
            op["locale"] = rng.choice(("utf-8", "cp1252", "ascii", "iso8859-15"))
            op["newline"] = rng.choice((None, "\r\n", "\n"))
        if rng.random() < 0.3:
            op["faults"] = [{"at": rng.randint(1, 14), "kind": "short"} for _ in range(3)]
        ops.append(op)
    return {"profiles": profs, "foreign": foreign, "ops": ops, "locale": rng.choice(("utf-8", "utf-8", "cp1252")),
            "newline": rng.choice((None, None, "\r\n"))}  # fmt: skip


def refused(call, op, where, ctx):
    """parameters that define no approval sets"""
    if not (op["top"] is not None and op["set"] is not None or any(x is not None and x <= 0 for x in (op["top"], op["set"]))):
        raise Discard("legal parameters")
    try:
        got = call()
    except (ValueError, TypeError):
        ctx.count("refused_parameters")
        return
    shown = got if isinstance(got, dict) else [sorted(v.approved) for v in got]
    raise Violation("not-refused", f"{where}: top_ranks={op['top']} setsize={op['set']} gave {shown}")


def judge(profile, want, m, names, where, weights, ctx, key):
    voters = files.observed_profile(profile)
    if profile.num_cand != m or list(profile.cand_names)[:m] != list(names):
        raise Violation("candidates", f"{where}: candidates {profile.cand_names}, should be {names}")
    got = files.tally(voters)
    if got != {tuple(a): w for a, w in want.items()}:
        raise Violation("ballots", f"{where}: read {got}, listed are {want}")
    if not weights and any(w != 1 for _, w in voters):
        raise Violation("ballots", f"{where}: weights {voters} although individual voters were requested")
    ctx.nontrivial = True
    ctx.state(key, weights, len(voters), m, len(want))
    ctx.log("read", len(voters), sorted(got.items()))


def execute(workload, ctx):
    from abcvoting import fileio

    profs = [session.SimProfile(spec) for spec in workload["profiles"]]
    foreign = workload["foreign"]
    if not profs or not foreign:
        raise Discard("nothing to do")
    for f in foreign:
        check_foreign(f)
    fs = simfs.SimFS(ctx, workload["locale"], workload["newline"])
    fs.mkdir_direct("sub")
    fs.put("notes.txt", b"not a profile")
    fs.put("a.abc.yaml", b"profile: [[0]]\n")
    fs.put("sub/broken.soi", b"broken")
    disk = {}  # name -> ("own", tally, m, names) or ("foreign", spec)
    with fs:
        for number, op in enumerate(workload["ops"]):
            where = f"step {number} ({op['op']})"
            kind = op["op"]
            p = profs[op["i"] % len(profs)]
            fs.begin(op.get("faults", ()))
            if kind == "write":
                if not p.voters or any(int(w) != w for _, w in p.voters):
                    continue
                name = files.cat_name(op["f"])
                fileio.write_profile_to_preflib_cat_file(files.address(op["f"], op["form"]), p.real)
                if fs.get(name) is None:
                    raise Violation("no-file", f"{where}: {name} was not written")
                disk[name] = ("own", files.tally(p.voters), p.m, list(p.names))
                p.verify(where)
            elif kind == "read":
                name = files.cat_name(op["f"])
                if name in disk and name.endswith(".cat"):
                    _, want, m, names = disk[name]
                    got = fileio.read_preflib_file(files.address(name, op["form"]), use_weights=op["weights"])
                    judge(got, want, m, names, where, op["weights"], ctx, "own")
            elif kind == "foreign":
                spec = foreign[op["i"] % len(foreign)]
                name = f"foreign{op['i'] % len(foreign)}.{spec['kind']}"
                fs.put(name, files.preflib_text(spec))
                disk[name] = ("foreign", spec)
                if op.get("refuse"):
                    refused(lambda: fileio.read_preflib_file(
                        files.address(name, op["form"]), top_ranks=op["top"], setsize=op["set"],
                        use_weights=op["weights"]), op, where, ctx)  # fmt: skip
                    fs.end()
                    continue
                got = fileio.read_preflib_file(files.address(name, op["form"]), top_ranks=op["top"],
                                               setsize=op["set"], use_weights=op["weights"])  # fmt: skip
                judge(got, files.preflib_expected(spec, op["top"], op["set"]), spec["m"], spec["names"],
                      f"{where} top_ranks={op['top']} setsize={op['set']} of {files.preflib_text(spec)!r}",
                      op["weights"], ctx, (spec["kind"], op["top"], op["set"]))  # fmt: skip
            elif kind == "dir" and op.get("refuse"):
                if any("/" not in n and n.endswith((".soi", ".toi", ".soc", ".toc", ".cat")) for n in disk):
                    refused(lambda: fileio.read_preflib_files_from_dir(".", top_ranks=op["top"], setsize=op["set"]),
                            op, where, ctx)  # fmt: skip
            elif kind == "dir":
                got = fileio.read_preflib_files_from_dir(".", top_ranks=op["top"], setsize=op["set"])
                names = sorted(n for n in disk if "/" not in n and n.endswith((".soi", ".toi", ".soc", ".toc", ".cat")))
                if list(got) != names:
                    raise Violation("directory", f"{where}: {list(got)} loaded, directory has {names}")
                for name in names:
                    if disk[name][0] == "foreign":
                        spec = disk[name][1]
                        judge(got[name], files.preflib_expected(spec, op["top"], op["set"]), spec["m"],
                              spec["names"], f"{where} {name}", False, ctx, "dir")  # fmt: skip
                    else:
                        own(got[name], disk[name], op, f"{where} {name}", ctx)
            elif kind == "edit":
                try:
                    session.edit_op([p], op["edit"], ctx)
                except Discard:
                    pass
            elif kind == "machine":
                fs.locale, fs.newline = op["locale"], op["newline"]
            fs.end()


def own(profile, entry, op, where, ctx):
    """an own file read with top_ranks / setsize: two categories"""
    _, want, m, names = entry
    res = {}
    for a, w in want.items():
        rest = [c for c in range(m) if c not in a]
        key = files.approvals([list(a), rest], m, op["top"], op["set"])
        res[key] = res.get(key, 0) + w
    judge(profile, res, m, names, where, False, ctx, "own-dir")


def check_foreign(f):
    seen = set()
    for v in f["votes"]:
        flat = [c for g in v["g"] for c in g]
        key = repr(v["g"])
        if len(set(flat)) != len(flat) or any(not 0 <= c < f["m"] for c in flat) or v["n"] < 1 or key in seen:
            raise Discard("vote")
        if not flat and f["kind"] != "cat" or any(not g for g in v["g"]) and f["kind"] != "cat":
            raise Discard("empty rank")
        seen.add(key)
    if not f["votes"] or len(f["names"]) < f["m"] or f["m"] < 1:
        raise Discard("file")
    f["names"] = f["names"][: f["m"]]
