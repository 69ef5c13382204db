"""An in-memory file system behind builtins.open and os.*, with faults, crashes and restarts.

Every path below /simfs and every relative path belongs to the simulated disk; all other paths reach
the real file system. One call of the code under test = a sequence of numbered disk operations; the
workload says which of them fail and how. After a crash every operation raises SimCrash until
restart(), which keeps only what had become durable: file data up to the last fsync plus an arbitrary
prefix of later writes (possibly none), and a prefix of the not yet durable directory changes."""

import builtins
import errno
import io
import os
import stat as statmod

ROOT = "/simfs"


class SimCrash(BaseException):
    """Power loss."""


class SimOSError(OSError):
    simulated_api = True


def oserror(code, path=None):
    exc = {
        errno.ENOENT: FileNotFoundError, errno.EEXIST: FileExistsError, errno.EACCES: PermissionError,
        errno.EISDIR: IsADirectoryError, errno.ENOTDIR: NotADirectoryError, errno.EPERM: PermissionError,
    }.get(code, OSError)(code, os.strerror(code), path)  # fmt: skip
    exc.simulated_api = True
    return exc


class Node:
    def __init__(self, fs, is_dir=False, mode=0o644):
        fs.next_ino += 1
        self.ino = fs.next_ino
        self.is_dir = is_dir
        self.mode = mode
        self.data = bytearray()
        self.synced = b""  # content at the last fsync
        self.unsynced = []  # operations since: ("w", offset, bytes) | ("t", length)
        self.mtime = fs.clock
        self.link = None  # target of a symbolic link

    def apply(self, op):
        apply_op(self.data, op)
        self.unsynced.append(op)


def apply_op(data, op):
    if op[0] == "w":
        _, offset, block = op
        if offset > len(data):
            data.extend(b"\0" * (offset - len(data)))
        data[offset : offset + len(block)] = block
    else:
        length = op[1]
        if length <= len(data):
            del data[length:]
        else:
            data.extend(b"\0" * (length - len(data)))


class SimFS:
    """faults: list of {"at": operation number, "kind": kind}; numbers count per begin()."""

    def __init__(self, ctx, locale="utf-8", newline=None):
        self.ctx = ctx
        self.next_ino = 1000
        self.clock = 1_600_000_000
        self.locale, self.newline = locale, newline
        self.cwd = ROOT + "/work"
        self.names = {}  # path -> Node (current view)
        self.durable = {}  # path -> Node (directory entries that survive a crash)
        self.journal = []  # directory changes not yet durable: (path, Node or None), grouped
        self.fds = {}
        self.next_fd = 100000
        self.dead = False
        self.counting = False
        self.opno = 0
        self.faults = {}
        self.fired = []
        self.labels = {}
        self.hook = None
        self.observer = None
        self.pid = 4242
        self.mounts = ()
        self.real = {}
        for d in (ROOT, self.cwd):
            self.names[d] = Node(self, True, 0o755)
        self.sync_all()

    # ---- plumbing ------------------------------------------------------------------------
    def begin(self, faults=(), hook=None):
        """Start counting the operations of one library call."""
        self.opno = 0
        self.faults = {int(f["at"]): f["kind"] for f in faults}
        self.fired = []
        self.hook = hook
        self.counting = True

    def end(self):
        self.counting = False
        self.faults = {}
        self.hook = None
        self.observer = None

    def label(self, path):
        base = path.rsplit("/", 1)[-1]
        if path not in self.labels:
            self.labels[path] = len(self.labels)
        return base if len(base) < 24 and not any(c.isdigit() for c in base) else f"f{self.labels[path]}"

    def step(self, what, path, kinds=()):
        """One disk operation; returns the fault that hits it (already raised if it is an error)."""
        if self.dead:
            raise SimCrash("the machine is down")
        if not self.counting:
            return None
        self.opno += 1
        self.clock += 1
        if self.observer is not None:
            self.observer(what)
        if self.hook is not None:
            hook, at = self.hook
            if self.opno == at:
                self.hook = None
                counting, observer = self.counting, self.observer
                self.counting, self.observer = False, None
                self.ctx.log("fs-other-process", what)
                hook()
                self.counting, self.observer = counting, observer
        kind = self.faults.get(self.opno)
        self.ctx.log("fs", self.opno, what, self.label(path) if path else "", kind or "")
        if kind is None:
            return None
        if kind == "crash":
            self.hit("crash", what)
            self.dead = True
            raise SimCrash(f"crash at {what}")
        if kind == "crash-after":
            self.hit("crash_after", what)
            return "crash-after"
        errors = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
                  "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT}  # fmt: skip
        if kind in errors and kind in kinds:
            self.hit(kind, what)
            raise oserror(errors[kind], path)
        if kind in kinds:
            self.hit(kind, what)
            return kind
        return None

    def hit(self, kind, what):
        self.fired.append(kind)
        self.ctx.count(f"fault_fs_{kind}")
        self.ctx.state("fault", kind, what)

    def after(self, fault, what):
        if fault == "crash-after":
            self.dead = True
            raise SimCrash(f"crash after {what}")

    # ---- paths ---------------------------------------------------------------------------
    def virtual(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return not path.startswith("/") or path == ROOT or path.startswith(ROOT + "/")

    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path == "":
            raise oserror(errno.ENOENT, path)
        full = path if path.startswith("/") else self.cwd + "/" + path
        if "\0" in full:
            raise ValueError("embedded null byte")
        return os.path.normpath(full)

    def resolve(self, path, follow=True):
        p = self.norm(path)
        for _ in range(20):
            node = self.names.get(p)
            if node is None or node.link is None or not follow:
                return p
            p = os.path.normpath(os.path.join(os.path.dirname(p), node.link))
        raise oserror(errno.ELOOP, path)

    def device(self, p):
        """directories in self.mounts are on file systems of their own"""
        for number, d in enumerate(self.mounts):
            if p.startswith(d + "/"):
                return 78 + number
        return 77

    def parent_ok(self, p):
        d = self.names.get(os.path.dirname(p))
        if d is None:
            raise oserror(errno.ENOENT, p)
        if not d.is_dir:
            raise oserror(errno.ENOTDIR, p)

    # ---- durability ----------------------------------------------------------------------
    def change(self, *entries):
        """directory changes that become durable together (create, unlink, rename)"""
        for path, node in entries:
            if node is None:
                self.names.pop(path, None)
            else:
                self.names[path] = node
        self.journal.append(entries)

    def sync_journal(self, upto=None):
        n = len(self.journal) if upto is None else upto
        for entries in self.journal[:n]:
            for path, node in entries:
                if node is None:
                    self.durable.pop(path, None)
                else:
                    self.durable[path] = node
        del self.journal[:n]

    def sync_node(self, node):
        node.synced = bytes(node.data)
        node.unsynced = []
        # the entry that created the file becomes durable with it (and all changes before it)
        for i, entries in enumerate(self.journal):
            if any(n is node for _, n in entries):
                self.sync_journal(i + 1)
                return

    def sync_all(self):
        for node in self.names.values():
            node.synced, node.unsynced = bytes(node.data), []
        self.journal = []
        self.durable = dict(self.names)

    def restart(self):
        """Only durable state survives; the simulator decides how much of the rest made it."""
        ctx = self.ctx
        kept = ctx.pick("journal-prefix", len(self.journal) + 1)
        kept = len(self.journal) - kept  # 0: everything survives
        self.sync_journal(kept)
        self.journal = []
        self.names = dict(self.durable)
        for node in sorted(set(self.names.values()), key=lambda n: n.ino):
            data = bytearray(node.synced)
            n = len(node.unsynced)
            lost = ctx.pick("lost-writes", n + 1)
            for op in node.unsynced[: n - lost]:
                apply_op(data, op)
            if lost and node.unsynced[n - lost][0] == "w":
                _, offset, block = node.unsynced[n - lost]
                torn = ctx.pick("torn-write", 4) * len(block) // 4
                if torn:
                    apply_op(data, ("w", offset, block[:torn]))
                    ctx.count("fault_fs_torn_by_crash")
            if lost:
                ctx.count("fault_fs_writes_lost_by_crash")
            node.data, node.synced, node.unsynced = data, bytes(data), []
        self.fds = {}
        self.dead = False
        self.pid += 1
        ctx.log("restart", kept, sorted((self.label(p), len(n.data)) for p, n in self.names.items()))

    # ---- direct access for the harness -----------------------------------------------------
    def put(self, path, data):
        p = self.norm(path)
        node = Node(self)
        node.data = bytearray(data)
        node.synced = bytes(data)
        self.names[p] = node
        self.durable[p] = node

    def mkdir_direct(self, path):
        p = self.norm(path)
        if p not in self.names:
            self.names[p] = self.durable[p] = Node(self, True, 0o755)

    def get(self, path):
        try:
            node = self.names.get(self.resolve(path))
        except OSError:
            return None
        return None if node is None or node.is_dir else bytes(node.data)

    def files(self, directory=None):
        d = self.cwd if directory is None else self.norm(directory)
        return {p.rsplit("/", 1)[-1]: bytes(n.data) for p, n in self.names.items()
                if os.path.dirname(p) == d and not n.is_dir and n.link is None}  # fmt: skip

    # ---- system calls ----------------------------------------------------------------------
    def sys_open(self, path, flags, mode=0o777):
        p = self.resolve(path)
        fault = self.step("open", p, ("EIO", "EACCES", "EMFILE", "ENOSPC", "EROFS"))
        node = self.names.get(p)
        accmode = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        if node is None:
            if not flags & os.O_CREAT:
                raise oserror(errno.ENOENT, path)
            self.parent_ok(p)
            node = Node(self, mode=mode & ~0o022)
            self.change((p, node))
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserror(errno.EEXIST, path)
            if node.is_dir:
                if accmode != os.O_RDONLY:
                    raise oserror(errno.EISDIR, path)
            elif flags & os.O_TRUNC:
                node.apply(("t", 0))
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = {"node": node, "pos": 0, "path": p, "acc": accmode, "append": bool(flags & os.O_APPEND)}
        self.after(fault, "open")
        return fd

    def fd(self, fd):
        if fd not in self.fds:
            if self.dead:
                raise SimCrash("the machine is down")
            raise oserror(errno.EBADF)
        return self.fds[fd]

    def sys_write(self, fd, data):
        f = self.fd(fd)
        data = bytes(data)
        fault = self.step("write", f["path"], ("EIO", "ENOSPC", "EDQUOT", "short", "torn"))
        if f["acc"] == os.O_RDONLY:
            raise oserror(errno.EBADF)
        node = f["node"]
        if f["append"]:
            f["pos"] = len(node.data)
        if fault == "short" and len(data) > 1:
            data = data[: 1 + self.ctx.pick("short-write", len(data) - 1)]
        if fault == "torn":
            part = data[: len(data) // 2]
            if part:
                node.apply(("w", f["pos"], part))
            raise oserror(errno.ENOSPC, f["path"])
        if data:
            node.apply(("w", f["pos"], data))
        f["pos"] += len(data)
        node.mtime = self.clock
        self.after(fault, "write")
        return len(data)

    def sys_read(self, fd, n):
        f = self.fd(fd)
        fault = self.step("read", f["path"], ("EIO", "short"))
        if f["node"].is_dir:
            raise oserror(errno.EISDIR, f["path"])
        data = bytes(f["node"].data[f["pos"] : f["pos"] + n])
        if fault == "short" and len(data) > 1:
            data = data[: 1 + self.ctx.pick("short-read", len(data) - 1)]
        f["pos"] += len(data)
        return data

    def sys_close(self, fd):
        f = self.fd(fd)
        del self.fds[fd]
        fault = self.step("close", f["path"], ("EIO", "ENOSPC"))
        self.after(fault, "close")

    def sys_fsync(self, fd):
        f = self.fd(fd)
        fault = self.step("fsync", f["path"], ("EIO", "ENOSPC"))
        if f["node"].is_dir:
            self.sync_journal()
        else:
            self.sync_node(f["node"])
        self.after(fault, "fsync")

    def sys_truncate(self, fd, length):
        f = self.fd(fd)
        fault = self.step("truncate", f["path"], ("EIO",))
        f["node"].apply(("t", length))
        self.after(fault, "truncate")

    def sys_stat(self, path, follow=True):
        if isinstance(path, int):
            node = self.fd(path)["node"]
            p = self.fd(path)["path"]
        else:
            p = self.resolve(path, follow)
            self.step("stat", p, ())
            node = self.names.get(p)
            if node is None:
                raise oserror(errno.ENOENT, path)
        if node.link is not None:
            kind = statmod.S_IFLNK
        else:
            kind = statmod.S_IFDIR if node.is_dir else statmod.S_IFREG
        return os.stat_result((kind | node.mode, node.ino, self.device(p), 1, 0, 0, len(node.data), node.mtime, node.mtime, node.mtime))

    def sys_rename(self, src, dst, replace=True):
        s, d = self.resolve(src, False), self.resolve(dst, False)
        fault = self.step("rename", d, ("EIO", "ENOSPC", "EACCES"))
        node = self.names.get(s)
        if node is None:
            raise oserror(errno.ENOENT, src)
        self.parent_ok(d)
        if self.device(s) != self.device(d):
            raise oserror(errno.EXDEV, dst)
        target = self.names.get(d)
        if target is not None and target.is_dir and not node.is_dir:
            raise oserror(errno.EISDIR, dst)
        if s != d:
            self.change((d, node), (s, None))
        self.after(fault, "rename")

    def sys_unlink(self, path):
        p = self.resolve(path, False)
        fault = self.step("unlink", p, ("EIO", "EACCES"))
        node = self.names.get(p)
        if node is None:
            raise oserror(errno.ENOENT, path)
        if node.is_dir:
            raise oserror(errno.EISDIR, path)
        self.change((p, None))
        self.after(fault, "unlink")

    def sys_chmod(self, path, mode):
        if isinstance(path, int):
            node, p = self.fd(path)["node"], self.fd(path)["path"]
        else:
            p = self.resolve(path)
            node = self.names.get(p)
        fault = self.step("chmod", p, ("EIO", "EACCES"))
        if node is None:
            raise oserror(errno.ENOENT, path)
        node.mode = statmod.S_IMODE(mode)
        self.after(fault, "chmod")

    def sys_mkdir(self, path, mode=0o777):
        p = self.resolve(path, False)
        self.step("mkdir", p, ("EIO", "ENOSPC"))
        if p in self.names:
            raise oserror(errno.EEXIST, path)
        self.parent_ok(p)
        self.change((p, Node(self, True, mode & ~0o022)))

    def sys_rmdir(self, path):
        p = self.resolve(path, False)
        self.step("rmdir", p, ())
        node = self.names.get(p)
        if node is None or not node.is_dir:
            raise oserror(errno.ENOENT, path)
        if any(os.path.dirname(q) == p for q in self.names):
            raise oserror(errno.ENOTEMPTY, path)
        self.change((p, None))

    def sys_list(self, path):
        p = self.resolve(path)
        fault = self.step("readdir", p, ("EIO", "EACCES"))
        node = self.names.get(p)
        if node is None:
            raise oserror(errno.ENOENT, path)
        if not node.is_dir:
            raise oserror(errno.ENOTDIR, path)
        entries = [q for q in self.names if os.path.dirname(q) == p and q != p]
        entries.sort(key=lambda q: self.names[q].ino)
        order = []
        while entries:  # the order in which a directory lists its entries is up to the file system
            order.append(entries.pop(self.ctx.pick("readdir", len(entries))))
        self.after(fault, "readdir")
        return [q.rsplit("/", 1)[-1] for q in order]

    def sys_symlink(self, target, path):
        p = self.resolve(path, False)
        if p in self.names:
            raise oserror(errno.EEXIST, path)
        node = Node(self)
        node.link = target
        self.change((p, node))

    def sys_readlink(self, path):
        p = self.resolve(path, False)
        self.step("readlink", p, ())
        node = self.names.get(p)
        if node is None:
            raise oserror(errno.ENOENT, path)
        if node.link is None:
            raise oserror(errno.EINVAL, path)
        return node.link

    # ---- installation ----------------------------------------------------------------------
    def __enter__(self):
        install(self)
        return self

    def __exit__(self, *exc):
        uninstall(self)
        return False


class SimRaw(io.RawIOBase):
    """what io.FileIO is for real files"""

    def __init__(self, fs, fd, name, readable, writable, closefd=True):
        super().__init__()
        self.fs, self._fd, self.name = fs, fd, name
        self._r, self._w, self._closefd = readable, writable, closefd
        self.mode = "rb+" if readable and writable else "rb" if readable else "wb"

    def fileno(self):
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        data = self.fs.sys_read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self.fs.sys_write(self._fd, b)

    def seek(self, pos, whence=0):
        f = self.fs.fd(self._fd)
        f["pos"] = pos if whence == 0 else f["pos"] + pos if whence == 1 else len(f["node"].data) + pos
        return f["pos"]

    def tell(self):
        return self.fs.fd(self._fd)["pos"]

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self.fs.sys_truncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd and self._fd in self.fs.fds:
                    self.fs.sys_close(self._fd)


class SimDirEntry:
    def __init__(self, fs, directory, name):
        self.fs, self.name = fs, name
        self.path = os.path.join(directory, name)

    def is_dir(self, follow_symlinks=True):
        try:
            return statmod.S_ISDIR(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_file(self, follow_symlinks=True):
        try:
            return statmod.S_ISREG(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_symlink(self):
        return self.fs.names[self.fs.norm(self.path)].link is not None

    def is_junction(self):
        return False

    def stat(self, follow_symlinks=True):
        p = self.fs.resolve(self.path, follow_symlinks)
        node = self.fs.names.get(p)
        if node is None:
            raise oserror(errno.ENOENT, self.path)
        kind = statmod.S_IFLNK if node.link else statmod.S_IFDIR if node.is_dir else statmod.S_IFREG
        return os.stat_result((kind | node.mode, node.ino, self.fs.device(p), 1, 0, 0, len(node.data), node.mtime, node.mtime, node.mtime))

    def inode(self):
        return self.fs.names[self.fs.norm(self.path)].ino

    def __fspath__(self):
        return self.path


class SimScan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        self._it = iter(())


def make_open(fs, real_open):
    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not fs.virtual(file):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        text = "b" not in mode
        kinds = [c for c in mode if c in "rwax"]
        if len(kinds) != 1 or set(mode) - set("rwaxbt+U"):
            raise ValueError(f"invalid mode: {mode!r}")
        if not text and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        plus = "+" in mode
        kind = kinds[0]
        readable, writable = kind == "r" or plus, kind != "r" or plus
        flags = os.O_RDWR if plus else os.O_WRONLY if writable else os.O_RDONLY
        flags |= {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}[kind]
        if isinstance(file, int):
            fd, name = file, file
        elif opener is not None:
            fd, name = opener(file, flags), file
        else:
            fd, name = fs.sys_open(file, flags, 0o666), file
        if fs.fd(fd)["node"].is_dir:
            fs.fds.pop(fd, None)
            raise oserror(errno.EISDIR, file)
        raw = SimRaw(fs, fd, name, readable, writable, closefd)
        if kind == "a":
            raw.seek(0, 2)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 512
        if readable and writable:
            buf = io.BufferedRandom(raw, size)
        else:
            buf = io.BufferedWriter(raw, size) if writable else io.BufferedReader(raw, size)
        if not text:
            return buf
        if newline is None and writable and fs.newline is not None:
            newline = fs.newline  # what the platform's text mode writes
        wrapper = io.TextIOWrapper(buf, encoding or fs.locale, errors, newline, line_buffering=buffering == 1)
        wrapper.mode = mode
        return wrapper

    return sim_open


def _os_functions(fs, real):
    v = fs.virtual

    def route(name, sim):
        def call(path=".", *args, **kwargs):
            if v(path):
                return sim(path, *args, **kwargs)
            return real[name](path, *args, **kwargs)

        call.__name__ = name
        return call

    def route2(name, sim):
        def call(src, dst, *args, **kwargs):
            a, b = v(src), v(dst)
            if a and b:
                return sim(src, dst)
            if a or b:
                raise oserror(errno.EXDEV, src)
            return real[name](src, dst, *args, **kwargs)

        return call

    def access(path, mode, **kw):
        node = fs.names.get(fs.resolve(path))
        return node is not None

    def scandir(path="."):
        return SimScan([SimDirEntry(fs, os.fspath(path), n) for n in fs.sys_list(path)])

    def utime(path, *a, **k):
        fs.sys_stat(path)

    def link(src, dst):
        s, d = fs.resolve(src), fs.resolve(dst, False)
        if d in fs.names:
            raise oserror(errno.EEXIST, dst)
        if s not in fs.names:
            raise oserror(errno.ENOENT, src)
        if fs.device(s) != fs.device(d):
            raise oserror(errno.EXDEV, dst)
        fs.change((d, fs.names[s]))

    def fsync(fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        return fs.sys_fsync(fd) if fd in fs.fds or fd >= 100000 else real["fsync"](fd)

    def lseek(fd, pos, how=0):
        f = fs.fd(fd)
        f["pos"] = pos if how == 0 else f["pos"] + pos if how == 1 else len(f["node"].data) + pos
        return f["pos"]

    return {
        "open": route("open", lambda p, flags, mode=0o777, **k: fs.sys_open(p, flags, mode)),
        "close": route("close", fs.sys_close),
        "write": route("write", fs.sys_write),
        "read": route("read", fs.sys_read),
        "lseek": route("lseek", lseek),
        "ftruncate": route("ftruncate", fs.sys_truncate),
        "fsync": fsync,
        "fdatasync": fsync,
        "fstat": route("fstat", fs.sys_stat),
        "stat": route("stat", lambda p, follow_symlinks=True, **k: fs.sys_stat(p, follow_symlinks)),
        "lstat": route("lstat", lambda p, **k: fs.sys_stat(p, False)),
        "readlink": route("readlink", lambda p, **k: fs.sys_readlink(p)),
        "symlink": lambda s, d, **k: fs.sys_symlink(s, d) if v(d) else real["symlink"](s, d, **k),
        "rename": route2("rename", fs.sys_rename),
        "replace": route2("replace", fs.sys_rename),
        "link": route2("link", link),
        "remove": route("remove", lambda p, **k: fs.sys_unlink(p)),
        "unlink": route("unlink", lambda p, **k: fs.sys_unlink(p)),
        "chmod": route("chmod", lambda p, m, **k: fs.sys_chmod(p, m)),
        "fchmod": route("fchmod", fs.sys_chmod),
        "mkdir": route("mkdir", lambda p, mode=0o777, **k: fs.sys_mkdir(p, mode)),
        "rmdir": route("rmdir", lambda p, **k: fs.sys_rmdir(p)),
        "listdir": route("listdir", fs.sys_list),
        "scandir": route("scandir", scandir),
        "access": route("access", access),
        "utime": route("utime", utime),
        "chown": route("chown", lambda p, *a, **k: fs.sys_stat(p)),
        "truncate": route("truncate", lambda p, n: _truncate(fs, p, n)),
        "getcwd": lambda: fs.cwd,
        "getpid": lambda: fs.pid,
        "sync": fs.sync_all,
    }


def _truncate(fs, path, length):
    node = fs.names.get(fs.resolve(path))
    if node is None:
        raise oserror(errno.ENOENT, path)
    node.apply(("t", length))


def install(fs):
    import shutil

    names = list(_os_functions(fs, {}))
    fs.real = {n: getattr(os, n) for n in names if hasattr(os, n)}
    fs.real_open = (builtins.open, io.open)
    fs.real_sendfile = getattr(shutil, "_USE_CP_SENDFILE", False)
    for name, func in _os_functions(fs, fs.real).items():
        if name in fs.real:
            setattr(os, name, func)
    builtins.open = make_open(fs, fs.real_open[0])
    io.open = builtins.open
    shutil._USE_CP_SENDFILE = False


def uninstall(fs):
    import shutil

    for name, func in fs.real.items():
        setattr(os, name, func)
    builtins.open, io.open = fs.real_open
    shutil._USE_CP_SENDFILE = fs.real_sendfile
