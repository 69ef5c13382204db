"""A save either fully takes effect or leaves the old file untouched."""

import sys
import threading

from sim import env, files, session, simfs
from sim.core import REPO, Ctx, Discard, Violation

CASES = {"quick": 7000, "thorough": 120000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULE = (
    "a case is a seeded history of 2-7 saves (.abc.yaml and PrefLib) on a simulated disk; disk operations "
    "fail (EIO, ENOSPC, EACCES, EMFILE, EROFS, EDQUOT), write short or torn blocks, the machine crashes at or "
    "after an operation (unsynced writes and renames are lost from an arbitrary point on), an exception cuts "
    "the save off at a chosen line, the saved object is refused half-way, or another process or thread "
    "saves to the same file in between; sub-directories are on other devices, some files are links; after each step (and at each disk operation) every file must have complete "
    "content; non-trivial: at least one fault hit a save"
)
STATES = "distinct (fault, disk operation), (file kind, outcome, old file present, content found)"
REAL = ["abcvoting.fileio", "abcvoting.preferences", "ruamel.yaml", "preflibtools"]
STUB = ["file system (in-memory, with page cache, journal, faults and crashes)", "other processes and threads (nested calls at disk operations)"]
ASSUMPTIONS = [
    "rename and unlink are atomic; directory changes become durable in order; fsync makes the file's data "
    "and its creation durable; unsynced data is lost from an arbitrary write on, the first lost write may be torn",
    "the complete new content is what the same save writes without faults (or parses to the same instance)",
]
LINKS = {"sub/link.abc.yaml": "a.abc.yaml", "sub/link.cat": "a.cat"}  # symbolic links
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT", "short", "torn", "crash", "crash", "crash-after", "crash-after")
REFUSALS = ("fraction", "object", "rule_id", "committeesize", "surrogate")


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    insts = []
    for _ in range(rng.choice((2, 3))):
        spec = files.instance(rng)
        if rng.random() < 0.15:
            spec["desc"] = "long " * rng.choice((30, 400))
        for v in spec["voters"]:
            v["w"] = min(v["w"], 5)
        insts.append(spec)
    ops = []
    for _ in range(rng.randint(2, 7)):
        kind = rng.choice(("yaml", "yaml", "cat", "crash", "dir")) if ops else rng.choice(("yaml", "cat"))
        op = {"op": kind, "i": rng.randrange(len(insts)), "form": rng.choice(("rel", "abs", "dot")),
              "f": rng.choice(files.YAML_FILES[:4] if kind != "cat" else files.CAT_FILES[:4])}  # fmt: skip
        if kind in ("yaml", "cat"):
            if rng.random() < 0.1:
                op["f"] = sorted(LINKS)[kind == "cat"]
            elif rng.random() < 0.6:
                op["f"] = files.YAML_FILES[0] if kind == "yaml" else files.CAT_FILES[0]
            mode = rng.random()
            if mode < 0.5:
                op["faults"] = [{"at": rng.randint(1, 14), "kind": rng.choice(KINDS)} for _ in range(rng.choice((1, 1, 2)))]
            elif mode < 0.62:
                op["int"] = {"kind": rng.choice(("kbd", "mem", "sys")), "at": rng.randint(1, rng.choice((20, 80, 2000))),
                             "fresh": rng.random() < 0.4}
            elif mode < 0.77:
                op["refuse"] = rng.choice(REFUSALS)
            elif mode < 0.87:
                op["other"] = {"at": rng.randint(1, 12), "i": rng.randrange(len(insts)),
                               "thread": rng.random() < 0.5, "faults": [{"at": rng.randint(1, 12), "kind": rng.choice(("EIO", "ENOSPC", "torn"))}]
                               if rng.random() < 0.3 else []}  # fmt: skip
        ops.append(op)
    return {"instances": insts, "ops": ops, "newline": rng.choice((None, None, "\r\n")),
            "old": rng.choice(("none", "none", "none", "empty", "long"))}


class Unwritable:
    pass


def save(inst, op, refuse=None):
    from fractions import Fraction

    from abcvoting import fileio

    path = files.address(op["f"], op["form"])
    profile = inst.p.real
    if refuse in ("fraction", "surrogate"):
        profile = profile.copy()
        if refuse == "fraction" and len(profile):
            profile[len(profile) - 1].weight = Fraction(1, 3)
        if refuse == "surrogate":
            names = list(profile.cand_names)
            names[-1] = "\ud800"
            profile.cand_names = names
    if op["op"] == "cat":
        fileio.write_profile_to_preflib_cat_file(path, profile)
        return
    compute = inst.live_compute()
    if refuse in ("object", "rule_id", "committeesize"):
        compute = (compute or []) + [{
            "object": {"rule_id": "av", "x": Unwritable()}, "rule_id": {"result": None},
            "committeesize": {"rule_id": "av", "committeesize": 77},
        }[refuse]]  # fmt: skip
    desc = inst.desc if refuse != "surrogate" else "\ud800"
    fileio.write_abcvoting_instance_to_yaml_file(
        path, profile, committeesize=inst.k, compute_instances=compute, description=desc
    )


def reference(inst, op, newline):
    """what the save writes when nothing goes wrong"""
    with simfs.SimFS(Ctx(0), newline=newline) as fs:
        fs.mkdir_direct("sub")
        for name, other in LINKS.items():
            fs.sys_symlink(f"../{other}", name)
        save(inst, op)
        return fs.get(target(op))


def target(op):
    name = files.cat_name(op["f"]) if op["op"] == "cat" else op["f"]
    return LINKS.get(name, name)


def meaning(op, data):
    """content as an instance or profile (None if it cannot be read)"""
    from abcvoting import fileio

    if data is None:
        return None
    with simfs.SimFS(Ctx(0)) as fs:
        fs.mkdir_direct("sub")
        name = "x.abc.yaml" if op["op"] == "yaml" else "x.cat"
        fs.put(name, data)
        try:
            if op["op"] == "yaml":
                return files.observed_yaml(fileio.read_abcvoting_yaml_file(name))
            profile = fileio.read_preflib_file(name, use_weights=True)
            return (files.tally(files.observed_profile(profile)), profile.num_cand, list(profile.cand_names))
        except Exception:  # pylint: disable=broad-except
            return None


def check(op, found, allowed, where):
    """found is one of the allowed complete contents; returns which one"""
    if found in allowed:
        return allowed.index(found)
    if found is not None:
        m = meaning(op, found)
        if m is not None:
            for i, a in enumerate(allowed):
                if a is not None and meaning(op, a) == m:
                    return i
    show = lambda d: None if d is None else (d if len(d) < 90 else d[:60] + b"..." + str(len(d)).encode())  # noqa: E731
    raise Violation("mixed", f"{where}: {target(op)} contains {show(found)}; complete contents: {[show(a) for a in allowed]}")


def execute(workload, ctx):
    insts = [files.Instance(spec) for spec in workload["instances"]]
    if not insts:
        raise Discard("no instance")
    fs = simfs.SimFS(ctx, "utf-8", workload["newline"])
    fs.mkdir_direct("sub")
    current = {"notes.txt": b"bystander", "sub/x.soi": b"broken", "a.abc.yaml.tmp": b"mine", "a.abc.yaml~": b"mine",
               "a.cat.tmp": b"mine", "a.cat.bak": b"mine", "plain": b"mine", "tmp": b"mine", ".a.abc.yaml.swp": b"mine"}  # fmt: skip
    if workload.get("old") in ("empty", "long"):
        current["a.abc.yaml"] = b"" if workload["old"] == "empty" else b"x" * 5000
    for name, data in current.items():
        fs.put(name, data)
    for name, other in LINKS.items():
        fs.sys_symlink(f"../{other}", name)
    fs.mounts = (fs.norm("sub"),)
    fs.sync_all()
    history = {name: [data] for name, data in current.items()}  # contents since the last restart
    with fs:
        for number, op in enumerate(workload["ops"]):
            where = f"step {number} ({op['op']} {op['f']})"
            if op["op"] == "crash":
                crash(fs, current, history, ctx, where, None)
                continue
            if op["op"] == "dir":
                directory(fs, current, where)
                continue
            one_save(fs, op, insts, current, history, ctx, where, workload["newline"])
        for name in sorted(current):
            if fs.get(name) != current[name]:
                raise Violation("bystander", f"at the end: {name} changed")
        directory(fs, current, "at the end")


def in_thread(call):
    """perform call in another thread of this process, while this one waits"""
    failed = []

    def body():
        try:
            call()
        except BaseException as e:  # pylint: disable=broad-except
            failed.append(e)

    thread = threading.Thread(target=body)
    thread.start()
    thread.join()
    if failed:
        raise failed[0]


def one_save(fs, op, insts, current, history, ctx, where, newline):
    inst = insts[op["i"] % len(insts)]
    name = target(op)
    if op["op"] == "cat" and any(int(w) != w for _, w in inst.p.voters):
        ctx.count("skipped_ops")
        return
    if op["op"] == "cat" and not inst.p.voters:
        ctx.count("skipped_ops")
        return
    new = reference(inst, op, newline)
    old = current.get(name)
    allowed = [old, new]
    other = op.get("other")
    refuse = op.get("refuse")
    if refuse in ("object", "rule_id", "committeesize") and op["op"] == "cat":
        refuse = "surrogate"
    if refuse == "fraction" and (op["op"] == "cat" or not inst.p.voters):
        refuse = "surrogate"
    hook = None
    ran = []
    if other:
        second = insts[other["i"] % len(insts)]
        if op["op"] == "cat" and (not second.p.voters or any(int(w) != w for _, w in second.p.voters)):
            second = inst
        allowed.append(reference(second, op, newline))

        def nested():
            ran.append(1)
            ctx.count("fault_fs_other_thread" if other.get("thread") else "fault_fs_other_process")
            pid = fs.pid
            fs.pid += 0 if other.get("thread") else 7
            outer = (fs.opno, fs.faults, fs.fired)
            if other["faults"]:
                fs.begin(other["faults"])
            try:
                if other.get("thread"):
                    in_thread(lambda: save(second, op))
                else:
                    save(second, op)
            except OSError:
                if not fs.fired:
                    raise
            finally:
                fs.counting = False
                fs.opno, fs.faults, fs.fired = outer
                fs.pid = pid

        hook = (nested, other["at"])

    def observer(what):
        check(op, fs.get(name), allowed, f"{where}, before {what}")

    fs.begin(op.get("faults", ()), hook)
    fs.observer = observer
    status, bomb = "ok", None
    try:
        if op.get("int"):
            import preflibtools

            prefix = (REPO + "/abcvoting", preflibtools.__path__[0])
            with session.bomb_for(op["int"], prefix) as bomb:
                save(inst, op, refuse)
        else:
            save(inst, op, refuse)
    except (Violation, Discard):
        raise
    except simfs.SimCrash:
        status = "crash"
    except BaseException as e:  # pylint: disable=broad-except
        sys.settrace(None)
        injected = bool(fs.fired) or refuse or ran or (bomb is not None and bomb.fired)
        if not injected:
            raise Violation("crash", f"{where}: saving raised {type(e).__name__}: {e}") from e
        status = "interrupted" if bomb is not None and bomb.fired else "refused" if refuse else "failed"
        del e
    finally:
        fired = list(fs.fired)
        fs.end()
    if bomb is not None and bomb.fired:
        ctx.count(f"fault_interrupt_{op['int']['kind']}")
    if status == "refused":
        ctx.count(f"fault_refused_{refuse}")
    if status != "ok" or fired or ran:
        ctx.nontrivial = True
    if status == "crash":
        history.setdefault(name, [old]).extend(allowed)
        crash(fs, current, history, ctx, where, (op, name, new))
    else:
        if status == "ok" and refuse is None and not ran:
            allowed = [new]
        elif status == "ok" and refuse is not None:
            allowed.append(fs.get(name))  # the object was not refused after all: nothing to compare with
        found = fs.get(name)
        which = check(op, found, allowed, f"{where} ({status}, {fired or refuse or ''})")
        ctx.state(op["op"], status, old is not None, which, tuple(fired)[:2])
        current[name] = found
        if found is None:
            current.pop(name)
        history.setdefault(name, [old]).extend(allowed if ran else [found])
    ctx.log(op["op"], status, fired)
    for n, data in current.items():
        if fs.get(n) != data:
            raise Violation("bystander", f"{where}: {n} was changed by saving {name}")
    for link, other in LINKS.items():
        if fs.get(link) != fs.get(other):
            raise Violation("link", f"{where}: {link} is no longer the file {other} it linked to")
    if status in ("failed", "interrupted", "crash", "refused"):
        fs.begin()  # no faults: saving works again
        try:
            save(inst, op)
        except Exception as e:
            raise Violation("cannot-save-again", f"{where}: after {status} {fired}, saving raised {type(e).__name__}: {e}") from e
        finally:
            fs.end()
        found = fs.get(name)
        check(op, found, [new], f"{where}, saved again after {status}")
        current[name] = found
        history.setdefault(name, [old]).append(found)
        ctx.count("saved_again_after_failure")


def crash(fs, current, history, ctx, where, running):
    if running is None:
        ctx.count("fault_fs_crash_between_saves")
    fs.restart()
    for name in sorted(set(history) | set([running[1]] if running else [])):
        allowed = list(history.get(name, [None]))
        op = {"op": "cat" if name.endswith((".cat", "plain", "1.2")) else "yaml", "f": name}
        if running and running[1] == name:
            allowed.append(running[2])
        found = fs.get(name)
        which = check(op, found, allowed, f"{where}, after crash and restart")
        ctx.state("crash", op["op"], len(allowed), which, running is not None)
        history[name] = [found]
        current.pop(name, None)
        if found is not None:
            current[name] = found


def directory(fs, current, where):
    """leftovers are never picked up"""
    from abcvoting import fileio

    here = [n for n in current if "/" not in n]
    got = fileio.get_file_names(".", filename_extensions=[".abc.yaml"])
    if got != sorted(n for n in here if n.endswith(".abc.yaml")):
        raise Violation("leftover", f"{where}: {got} are listed as .abc.yaml files; saved were {sorted(here)}")
    cats = sorted(n for n in here if n.endswith(".cat"))
    got = fileio.read_preflib_files_from_dir(".")
    if sorted(got) != cats:
        raise Violation("leftover", f"{where}: {sorted(got)} loaded; saved were {sorted(here)}")
