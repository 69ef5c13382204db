"""Damaged files are rejected, and directory order never matters."""

import io
import re

from sim import env, files, simfs
from sim.core import Discard, Violation

CASES = {"quick": 11000, "thorough": 200000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULE = (
    "a case is one directory of 1-5 .abc.yaml or PrefLib files on a simulated disk, some of them damaged "
    "(truncated at a byte, bytes flipped or replaced, numbers or lists replaced by other values, lines lost, doubled or swapped, tail zeroed, mixed with "
    "another file), which is read file by file and as a directory while reads fail (EIO, EACCES, EMFILE), return "
    "short blocks, files vanish and the directory is listed in an arbitrary order; every profile returned is "
    "compared with the votes the damaged text lists; non-trivial: at least one read was judged"
)
STATES = "distinct (file kind, damage, read fault, outcome, strictly readable, #votes)"
REAL = ["abcvoting.fileio", "abcvoting.preferences", "ruamel.yaml", "preflibtools"]
STUB = ["file system (in-memory, read faults, listing order)"]
ASSUMPTIONS = [
    "text that is not strictly well-formed (unbalanced braces, repeated votes or candidates, inconsistent "
    "header) may be rejected or read as some legal profile: preflibtools is lenient",
    "a PrefLib file cut off exactly at a line end is a well-formed file with fewer votes",
    "ruamel.yaml decides what a YAML text means",
]
DAMAGE = ("none", "none", "truncate", "truncate", "flip", "digit", "delline", "dupline", "swap", "zero", "mix", "insert", "empty", "token")
EXTS = (".soi", ".toi", ".soc", ".toc", ".cat")


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    entries = []
    used = set()
    for i in range(rng.randint(1, 5)):
        kind = rng.choice(("yaml", "yaml", "preflib", "preflib", "preflib"))
        if kind == "yaml":
            spec = files.instance(rng)
            for v in spec["voters"]:
                v["w"] = min(v["w"], 7)
            e = {"kind": "yaml", "spec": spec, "style": rng.randrange(200)}
            e["name"] = f"{rng.choice('abcdxyz')}{i}.abc.yaml"
        else:
            spec = files.preflib(rng)
            e = {"kind": "preflib", "spec": spec}
            e["name"] = f"{rng.choice(['a', 'Z', 'm 1', 'é', '_x', '10', '9'])}{rng.choice(['', i])}.{spec['kind']}"
        e["damage"] = rng.choice(DAMAGE)
        e["at"], e["to"] = rng.random(), rng.randrange(256)
        if e["name"] not in used:
            entries.append(e)
        used.add(e["name"])
    reads = []
    for _ in range(rng.randint(1, 5)):
        r = {"op": rng.choice(("file", "file", "file", "dir", "names")), "i": rng.randrange(len(entries)),
             "weights": rng.random() < 0.5, "form": rng.choice(("rel", "abs"))}  # fmt: skip
        r.update(files.top_or_size(rng))
        if rng.random() < 0.4:
            r["faults"] = [{"at": rng.randint(1, rng.choice((4, 20))), "kind": rng.choice(("EIO", "EACCES", "EMFILE", "short"))}
                           for _ in range(rng.choice((1, 2)))]  # fmt: skip
        elif rng.random() < 0.1:
            r["vanish"] = {"at": rng.randint(1, 10), "i": rng.randrange(len(entries))}
        reads.append(r)
    return {"files": entries, "reads": reads, "extra": rng.random() < 0.7, "locale": rng.choice(("utf-8", "cp1252"))}


def damage(data, e):
    kind, at = e["damage"], e["at"]
    if not data or kind == "none":
        return data
    if kind == "empty":
        return b""
    pos = min(int(at * len(data)), len(data) - 1)
    if kind == "truncate":
        return data[:pos]
    if kind == "flip":
        return data[:pos] + bytes([data[pos] ^ (1 << e["to"] % 8)]) + data[pos + 1 :]
    if kind == "insert":
        return data[:pos] + [b",", b"{", b" ", b"\n", b"9", b"-", b"[", b":", b"\xff", b"1"][e["to"] % 10] + data[pos:]
    if kind == "digit":
        spots = [i for i, c in enumerate(data) if chr(c).isdigit()]
        if not spots:
            return data
        i = spots[int(at * len(spots)) % len(spots)]
        return data[:i] + str(e["to"] % 10).encode() + data[i + 1 :]
    if kind == "token":  # a list or a number is replaced by something else
        spots = [m.span() for m in re.finditer(rb"\[[^\[\]]*\]|\{[^{}]*\}|\d+", data)]
        if not spots:
            return data
        a, b = spots[int(at * len(spots)) % len(spots)]
        new = (b"null", b"~", b"[]", b"", b"7", b"x", b"null", b"-1", b"0", b"1.5")[e["to"] % 10]
        return data[:a] + new + data[b:]
    if kind == "zero":
        return data[:pos] + b"\0" * (len(data) - pos)
    lines = data.splitlines(True)
    i = min(int(at * len(lines)), len(lines) - 1)
    if kind == "delline":
        return b"".join(lines[:i] + lines[i + 1 :])
    if kind == "dupline":
        return b"".join(lines[: i + 1] + lines[i:])
    if kind == "swap":
        j = e["to"] % len(lines)
        lines[i], lines[j] = lines[j], lines[i]
        return b"".join(lines)
    if kind == "mix":
        other = data[::1]
        return data[:pos] + other[e["to"] % len(other) :]
    raise Discard(kind)


# ------------------------------------------------------------------------------------------
# what a text says, strictly


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def strict_yaml(data):
    """("error",) unreadable; ("any",) not strictly well-formed; ("ok", canonical)"""
    import ruamel.yaml

    try:
        doc = ruamel.yaml.YAML(typ="safe", pure=True).load(io.TextIOWrapper(io.BytesIO(data), "utf-8"))
    except Exception:  # pylint: disable=broad-except
        return ("error",)
    if not isinstance(doc, dict) or "profile" not in doc:
        return ("error", "no profile")
    prof = doc["profile"]
    if isinstance(prof, list) and any(a is None or isinstance(a, (int, float)) for a in prof):
        return ("error",)
    if not isinstance(prof, list) or any(not isinstance(a, list) or not all(map(is_int, a)) for a in prof):
        return ("any",)
    weights = doc.get("voter_weights", [1] * len(prof))
    if not isinstance(weights, list) or any(not is_int(w) and not isinstance(w, float) for w in weights):
        return ("any",)
    m = doc.get("num_cand", max((c for a in prof for c in a), default=-1) + 1)
    k = doc.get("committeesize")
    if not is_int(m) or (k is not None and not is_int(k)) or ("committeesize" in doc and k is None):
        return ("any",)
    if len(weights) != len(prof) or any(len(set(a)) != len(a) or not all(0 <= c < m for c in a) for a in prof):
        return ("error",)
    if any(not w > 0 for w in weights) or m < 1:
        return ("error",)
    compute = doc.get("compute", [])
    if not isinstance(compute, list) or any(not isinstance(c, dict) or "rule_id" not in c for c in compute):
        return ("any",)
    out = []
    for c in compute:
        res = c.get("result", "absent") if "result" in c else "absent"
        if res not in ("absent", None):
            if not isinstance(res, list) or any(not isinstance(x, list) or not all(map(is_int, x)) for x in res):
                return ("any",)
            res = [sorted(x) for x in res]
        if set(c) & {"profile", "committeesize"}:
            return ("any",)
        out.append((c["rule_id"], {k: files.plain(v) for k, v in c.items() if k not in ("rule_id", "result")}, res))
    return ("ok", {"m": m, "voters": [(sorted(a), w) for a, w in zip(prof, weights)], "k": k, "compute": out,
                   "desc": files.plain(doc.get("description"))})


ITEM = r"(\d+|\{\d+(,\d+)*\}|\{\})"
LINE = re.compile(rf"^(\d+):({ITEM}(,{ITEM})*)$", re.A)


def strict_preflib(data, ext):
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return ("error",)
    lines = io.StringIO(text, newline=None).read().split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    head = []
    while lines and lines[0].startswith("#"):
        head.append(lines.pop(0))
    if not lines:
        return ("error",)
    m, names = None, {}
    for line in head:
        if line.startswith("# NUMBER ALTERNATIVES"):
            hit = re.match(r"^# NUMBER ALTERNATIVES: (\d+)$", line, re.A)
            if not hit or m is not None:
                return ("any",)
            m = int(hit.group(1))
        if line.startswith("# ALTERNATIVE NAME"):
            hit = re.match(r"^# ALTERNATIVE NAME (\d+): (\S.*)$", line, re.A)
            if not hit or int(hit.group(1)) != len(names) + 1:
                return ("any",)
            names[int(hit.group(1))] = hit.group(2)
        if re.match(r"^# NUMBER (VOTERS|UNIQUE|CATEGORIES)", line) and not re.match(r"^# [A-Z ]+: \d+$", line, re.A):
            return ("any",)
    if m is None or sorted(names) != list(range(1, m + 1)):
        return ("any",)
    votes, seen = [], set()
    for line in lines:
        flat = re.sub(r"[ \t]", "", line)
        hit = LINE.match(flat)
        if not hit:
            return ("any",)
        groups = []
        for item in re.findall(r"\{[\d,]*\}|\d+", hit.group(2)):
            groups.append([int(x) - 1 for x in re.findall(r"\d+", item)])
        used = [c for g in groups for c in g]
        n = int(hit.group(1))
        if n < 1 or len(set(used)) != len(used) or any(not 0 <= c < m for c in used) or n > 10**5:
            return ("any",)
        if ext != "cat" and any(not g for g in groups):
            return ("any",)
        key = repr(groups)
        if key in seen:
            return ("any",)
        seen.add(key)
        votes.append({"n": n, "g": groups})
    return ("ok", {"kind": ext, "m": m, "votes": votes, "names": [names[i + 1] for i in range(m)]})


# ------------------------------------------------------------------------------------------


def judge_yaml(read, verdict, where):
    if verdict[0] == "error":
        raise Violation("accepted", f"{where}: unreadable text was accepted: {files.observed_yaml(read)}")
    voters = files.observed_profile(read[0])
    for v in read[0]:
        if not all(is_int(c) for c in v.approved):
            raise Violation("illegal-profile", f"{where}: {v.approved}")
    if verdict[0] == "ok":
        seen = files.observed_yaml(read)
        for key in ("m", "voters", "k", "desc", "compute"):
            if not files.same_numbers(seen[key], verdict[1][key]):
                raise Violation("wrong-content", f"{where}: {key} = {seen[key]}, the text says {verdict[1][key]}")
    return len(voters)


def judge_preflib(profile, verdict, r, weights, where):
    voters = files.observed_profile(profile)
    if verdict[0] == "error":
        raise Violation("accepted", f"{where}: unreadable text was accepted: {voters}")
    if verdict[0] == "ok":
        spec = verdict[1]
        want = files.preflib_expected(spec, r["top"], r["set"])
        if files.tally(voters) != want or profile.num_cand != spec["m"]:
            raise Violation("wrong-content", f"{where} top_ranks={r['top']} setsize={r['set']}: "
                            f"read {files.tally(voters)} of {profile.num_cand}, the text lists {want} of {spec['m']}")  # fmt: skip
        if [n.strip() for n in profile.cand_names] != [n.strip() for n in spec["names"]]:
            raise Violation("wrong-content", f"{where}: names {profile.cand_names}, the text says {spec['names']}")
        if not weights and any(w != 1 for _, w in voters):
            raise Violation("wrong-content", f"{where}: weights {voters}")
    return len(voters)


def huge(data, name):
    """a damaged multiplicity or size may be astronomically large: do not read"""
    return bool(re.search(rb"\d{6,}", data)) and not name.endswith(".yaml") or bool(re.search(rb"num_cand\W*\d{6,}", data))


def execute(workload, ctx):
    fs = simfs.SimFS(ctx, workload["locale"])
    disk = {}
    for e in workload["files"]:
        if e["kind"] == "yaml":
            data = files.yaml_text(files.Instance(e["spec"]), e["style"])
        else:
            from sim.props.D02 import check_foreign

            check_foreign(e["spec"])
            data = files.preflib_text(e["spec"])
        data = damage(data, e)
        if huge(data, e["name"]):
            raise Discard("huge number")
        ext = e["name"].rsplit(".", 1)[-1]
        verdict = strict_yaml(data) if e["kind"] == "yaml" else strict_preflib(data, ext)
        if e["damage"] == "none" and verdict[0] != "ok":
            raise Discard("generated file is not strict")
        disk[e["name"]] = {"e": e, "data": data, "verdict": verdict}
        fs.put(e["name"], data)
    if not disk:
        raise Discard("no files")
    if workload["extra"]:
        for name in ("readme.txt", "x.csv", "y.soi.bak", "soi", "z.wmd", "a.yaml.gz", "CAT"):
            fs.put(name, b"1: 2\n")
        for d in ("dir", "d.soi", "sub.abc.yaml"):
            fs.mkdir_direct(d)
        fs.put("dir/inner.soi", b"broken")
        fs.put("d.soi/inner.cat", b"broken")
    with fs:
        for number, r in enumerate(workload["reads"]):
            one_read(fs, number, r, disk, workload, ctx)
        for name, d in disk.items():
            if fs.get(name) not in (d["data"], None):
                raise Violation("changed", f"reading changed {name}")


def one_read(fs, number, r, disk, workload, ctx):
    from abcvoting import fileio

    names = sorted(disk)
    name = names[r["i"] % len(names)]
    d = disk[name]
    hook, gone = None, []
    if r.get("vanish"):
        victim = names[r["vanish"]["i"] % len(names)]

        def hook_call():
            if fs.get(victim) is not None:
                fs.sys_unlink(victim)
                gone.append(victim)
                ctx.count("fault_fs_vanished")

        hook = (hook_call, r["vanish"]["at"])
    where = f"read {number} ({r['op']} {name if r['op'] == 'file' else ''})"
    fs.begin(r.get("faults", ()), hook)
    result, error = None, None
    try:
        if r["op"] == "names":
            result = fileio.get_file_names(".", filename_extensions=[".abc.yaml"])
        elif r["op"] == "dir":
            result = fileio.read_preflib_files_from_dir(files.address(".", r["form"]), top_ranks=r["top"], setsize=r["set"])
        elif d["e"]["kind"] == "yaml":
            result = fileio.read_abcvoting_yaml_file(files.address(name, r["form"]))
        else:
            result = fileio.read_preflib_file(files.address(name, r["form"]), top_ranks=r["top"],
                                              setsize=r["set"], use_weights=r["weights"])  # fmt: skip
    except Exception as e:  # pylint: disable=broad-except
        error = e
    fired = [k for k in fs.fired if k != "short"] + gone
    fs.end()
    present = [n for n in names if n not in gone and fs.get(n) is not None]
    prefs = sorted(n for n in present if n.endswith(EXTS))
    if error is not None:
        message = f"{where} raised {type(error).__name__}: {str(error)[:200]}"
        involved = [d] if r["op"] == "file" else [] if r["op"] == "names" else [disk[n] for n in prefs]
        if not fired and all(x["verdict"][0] == "ok" and x["e"]["damage"] == "none" for x in involved):
            if r["op"] == "file" and fs.get(name) is None:
                pass  # vanished in an earlier read
            elif r["op"] == "dir" and not prefs and not [n for n in fs.files()]:
                pass  # FileNotFoundError: empty directory
            elif r["op"] == "names" and not fs.files():
                pass
            else:
                raise Violation("rejected", message + " although the file is intact") from error
        if not fired and r["op"] == "file" and d["verdict"][1:] == ("no profile",) and fs.get(name) is not None:
            if not isinstance(error, fileio.MalformattedFileException):
                raise Violation("wrong-error", f"{message}; {d['data']!r} contains no profile") from error
        ctx.log("error", r["op"], type(error).__name__)
        ctx.state("error", r["op"], d["e"]["kind"], d["e"]["damage"] if r["op"] == "file" else len(prefs), bool(fired))
        ctx.count("reads_rejected")
        ctx.nontrivial = True
        return
    ctx.nontrivial = True
    ctx.count("reads_judged")
    if r["op"] == "names":
        want = [n for n in present if n.endswith(".abc.yaml")]
        if sorted(set(result) - set(gone)) != want or result != sorted(result):
            raise Violation("directory", f"{where}: {result}, directory has {want}")
        return
    if r["op"] == "dir":
        if sorted(set(result) - set(gone)) != prefs or list(result) != sorted(result):
            raise Violation("directory", f"{where}: {list(result)}, directory has {prefs}")
        for n in result:
            count = judge_preflib(result[n], disk[n]["verdict"], r, False, f"{where} {n} = {disk[n]['data']!r}")
            ctx.log("dir", n, count)
            ctx.state("dir", disk[n]["e"]["damage"], disk[n]["verdict"][0], count, len(prefs))
        return
    if d["e"]["kind"] == "yaml":
        count = judge_yaml(result, d["verdict"], f"{where} = {d['data']!r}")
    else:
        count = judge_preflib(result, d["verdict"], r, r["weights"], f"{where} = {d['data']!r}")
    ctx.log("file", d["e"]["kind"], count)
    ctx.state(d["e"]["kind"], d["e"]["damage"], d["verdict"][0], count, bool(fired))
