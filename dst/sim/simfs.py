"""File-system seam.  Permanent wrappers around open/os.* are installed before the product is
imported; they pass straight through unless a SimFS is active.  Inside the active SimFS's
root every call goes through hook(): it is counted, logged, offered to the scheduler as a
switch point, and may be failed, shortened, delayed or turned into a crash according to the
scenario's fault plan.  Paths outside the root are only recorded."""
import builtins
import errno
import io
import os
import random
import re

_NUM = re.compile(r"(?<=[.\-_])\d{3,}(?=[.\-_])|(?<=tmp)[a-z0-9_]{8}")  # process and thread numbers in temporary names
_real = {n: getattr(os, n) for n in (
    "open", "close", "read", "write", "scandir", "listdir", "replace", "rename", "renames", "unlink", "remove", "fsync", "fdatasync", "truncate",
    "ftruncate", "mkdir", "rmdir", "link", "symlink", "stat", "lstat", "utime", "chmod", "access", "readlink")}
_real_open = io.open
current = None


class SimCrash(BaseException):
    """The simulated process died here."""


ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "ENOENT": errno.ENOENT, "EROFS": errno.EROFS,
       "EDQUOT": errno.EDQUOT, "ESTALE": errno.ESTALE, "EINTR": errno.EINTR, "ENOMEM": errno.ENOMEM, "EXDEV": errno.EXDEV, "EPERM": errno.EPERM}


def _p(path):
    """Text form of a path argument, or None for descriptors."""
    if isinstance(path, int):
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    return os.path.normpath(os.path.join(os.getcwd(), path)) if not os.path.isabs(path) else os.path.normpath(path)


class SimFS:
    """plan: [{"n": op index, "kind": ...}] or [{"op": name, "k": k-th such op, "sub": path part, "kind": ...}].
    Kinds: an errno name, "short", "crash", "crash-after", "power", "vanish", "garble"."""

    def __init__(self, root, plan=(), list_seed=None, sched=None, on_fault=None, journal=False, reads_only=False):
        self.root = root
        self.plan = [dict(p) for p in plan]
        self.list_seed = list_seed
        self.sched = sched
        self.n = 0
        self.count = {}
        self.ops = []
        self.frozen = False
        self.power = False
        self.fds = {}
        self.outside = []
        self.journal = [] if journal else None
        self.on_fault = on_fault or (lambda k, op, path: None)
        self.fired = []
        self.vmap, self.fdv, self.nextv = {}, {}, 1  # path -> file identity, descriptor -> file identity
        self.before = None
        self.before_op = None
        self.deny_outside_writes = False
        if journal:
            self.before = snapshot(root)
            for p, b in self.before.items():
                self.vmap[p] = self.nextv
                self.before[p] = (self.nextv, b)
                self.nextv += 1

    def inside(self, p):
        return p is not None and (p == self.root or p.startswith(self.root + "/"))

    def guard(self, p, writing):
        if writing and self.deny_outside_writes:
            raise PermissionError(errno.EPERM, "the simulator refuses writes outside the scratch directory", p)

    def rel(self, p):
        return _NUM.sub("N", os.path.relpath(p, self.root)) if self.inside(p) else p

    def hook(self, op, path):
        """Returns None, or the name of a soft fault for the caller to apply."""
        if self.frozen:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point("io")
            if self.frozen:
                raise SimCrash()
        n = self.n
        self.n += 1
        if self.before_op is not None:
            self.before_op(n, op, path)
        k = self.count[op] = self.count.get(op, 0) + 1
        rel = self.rel(path)
        self.ops.append((op, rel))
        for f in self.plan:
            if f.get("done"):
                continue
            if "n" in f:
                if f["n"] != n:
                    continue
            else:
                if f["op"] != op or f.get("sub", "") not in rel:
                    continue
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] <= f.get("k", 0):
                    continue
            if not f.get("always"):
                f["done"] = True
            return self.apply(f["kind"], op, path, rel)
        return None

    def apply(self, kind, op, path, rel):
        if kind in ("crash", "power"):
            self.note(kind, op, rel)
            self.frozen = True
            self.power = kind == "power"
            raise SimCrash()
        if kind == "EINTR" and op != "read":
            return None  # only reads are interrupted; Python retries the others itself
        if kind in ERR:
            if op == "close" and kind not in ("EIO", "ENOSPC", "EDQUOT"):
                return None
            self.note(kind, op, rel)
            raise OSError(ERR[kind], os.strerror(ERR[kind]), path)
        if kind == "vanish":
            if op in ("open-r", "scandir", "stat"):
                self.note(kind, op, rel)
                try:
                    if os.path.isdir(path):
                        return None
                    _real["unlink"](path)
                except OSError:
                    pass
            return None
        if kind in ("crash-after", "power-after"):
            self.note(kind, op, rel)
            return kind
        if kind in ("short", "garble"):
            if op in ("read", "write"):
                self.note(kind, op, rel)
                return kind
            return None
        raise ValueError(kind)

    def note(self, kind, op, rel):
        self.fired.append((kind, op, rel))
        self.on_fault(kind, op, rel)

    def after(self, soft):
        if soft in ("crash-after", "power-after"):
            self.frozen = True
            self.power = soft == "power-after"
            raise SimCrash()

    def vid(self, fd):
        return self.fdv.get(fd, -1)

    def newv(self, p):
        self.vmap[p] = self.nextv
        self.nextv += 1
        return self.vmap[p]

    def j(self, *rec):
        if self.journal is not None:
            self.journal.append(rec)

    def __enter__(self):
        global current
        self._prev = current
        current = self
        return self

    def __exit__(self, *a):
        global current
        current = self._prev


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, path, readable, writable, closefd=True, append=False):
        self.fs, self.fd, self.path = fs, fd, path
        self._r, self._w, self._cfd = readable, writable, closefd
        self._append = append
        self.name = path
        self.mode = "rb"

    def fileno(self):
        return self.fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        soft = self.fs.hook("truncate", self.path)
        _real["ftruncate"](self.fd, size)
        self.fs.j("truncate", self.fs.vid(self.fd), size)
        self.fs.after(soft)
        return size

    def readinto(self, b):
        soft = self.fs.hook("read", self.path)
        want = len(b)
        if soft == "short" and want > 1:
            want = max(1, min(want, 3))
        data = _real["read"](self.fd, want)
        b[:len(data)] = data
        self.fs.after(soft)
        return len(data)

    def write(self, b):
        return sim_fd_write(self.fs, self.fd, self.path, bytes(b), self._append)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._cfd:
                self.fs.fds.pop(self.fd, None)
                _real["close"](self.fd)
        soft = None if self.fs.frozen else self.fs.hook("close", self.path)
        self.fs.after(soft)


def sim_fd_write(fs, fd, path, data, append=False):
    soft = fs.hook("write", path)
    if soft == "short" and len(data) > 1:
        data = data[:max(1, len(data) // 2)]
    st = os.fstat(fd)
    off = st.st_size if append else os.lseek(fd, 0, 1)
    n = _real["write"](fd, data)
    fs.j("write", fs.vid(fd), off, data[:n])
    fs.after(soft)
    return n


def _flags(mode):
    m = mode.replace("b", "").replace("t", "")
    plus = "+" in m
    c = m.replace("+", "")
    if c == "r":
        f = os.O_RDWR if plus else os.O_RDONLY
    elif c == "w":
        f = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif c == "a":
        f = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    elif c == "x":
        f = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    else:
        raise ValueError(f"invalid mode: {mode!r}")
    return f | os.O_CLOEXEC


def _sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = current
    p = _p(path)
    if fs is None or dir_fd is not None or not fs.inside(p):
        if fs is not None and p is not None:
            fs.outside.append(("open", p))
            fs.guard(p, flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        return _real["open"](path, flags, mode, dir_fd=dir_fd)
    acc = flags & (os.O_WRONLY | os.O_RDWR)
    soft = fs.hook("open-w" if acc else "open-r", p)
    existed = os.path.lexists(p)
    fd = _real["open"](path, flags, mode)
    fs.fds[fd] = p
    rp = os.path.realpath(p)
    if not existed and flags & os.O_CREAT:
        fs.fdv[fd] = fs.newv(rp)
        fs.j("create", rp, fs.fdv[fd])
    else:
        fs.fdv[fd] = fs.vmap.get(rp) or fs.newv(rp)
        if flags & os.O_TRUNC:
            fs.j("truncate", fs.fdv[fd], 0)
    try:
        fs.after(soft)
    except SimCrash:
        _real["close"](fd)
        raise
    return fd


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = current
    if fs is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file not in fs.fds:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, p = file, fs.fds[file]
    else:
        p = _p(file)
        if not fs.inside(p):
            fs.outside.append(("open", p))
            fs.guard(p, any(c in mode for c in "wax+"))
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fl = _flags(mode)
        if opener is not None:
            fd = opener(file, fl)
        else:
            fd = _sim_os_open(file, fl, 0o666)
        if os.path.isdir(p):
            _real["close"](fd)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
    m = mode
    reading = "r" in m or "+" in m
    writing = any(c in m for c in "wax+")
    raw = SimRaw(fs, fd, p, reading, writing, closefd, append="a" in m)
    if isinstance(file, int) is False:
        raw.name = os.fspath(file)
    if "a" in m:
        os.lseek(fd, 0, 2)
    if buffering == 0:
        if "b" not in m:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1 and "b" not in m
    size = 8192 if buffering in (-1, 1) else buffering
    if reading and writing:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in m:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line)
    t.mode = mode
    return t


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        self.it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _order(fs, p, names, key):
    if fs.list_seed is None:
        return sorted(names, key=key)
    r = random.Random(f"{fs.list_seed}/{fs.rel(p)}")
    names = sorted(names, key=key)
    r.shuffle(names)
    return names


def _sim_scandir(path="."):
    fs = current
    p = _p(path)
    if fs is None or not fs.inside(p):
        if fs is not None and p is not None:
            fs.outside.append(("scandir", p))
        return _real["scandir"](path)
    soft = fs.hook("scandir", p)
    with _real["scandir"](path) as it:
        ents = list(it)
    ents = _order(fs, p, ents, lambda e: e.name)
    fs.after(soft)
    return _Scan(ents)


def _sim_listdir(path="."):
    fs = current
    p = _p(path)
    if fs is None or not fs.inside(p):
        if fs is not None and p is not None:
            fs.outside.append(("listdir", p))
        return _real["listdir"](path)
    soft = fs.hook("scandir", p)
    out = _order(fs, p, _real["listdir"](path), str)
    fs.after(soft)
    return out


def _two(name):
    def f(src, dst, **kw):
        fs = current
        a, b = _p(src), _p(dst)
        if fs is None or not (fs.inside(a) or fs.inside(b)):
            return _real[name](src, dst, **kw)
        soft = fs.hook("rename" if name != "link" else "link", b)
        r = _real[name](src, dst, **kw)
        fs.j("rename" if name != "link" else "link", a, b)
        if a in fs.vmap:
            fs.vmap[b] = fs.vmap[a]
            if name != "link":
                del fs.vmap[a]
        fs.after(soft)
        return r
    f.__name__ = name
    return f


def _one(name, op):
    def f(path, *a, **kw):
        fs = current
        p = _p(path)
        if fs is None or p is None or not fs.inside(p):
            return _real[name](path, *a, **kw)
        soft = fs.hook(op, p)
        r = _real[name](path, *a, **kw)
        if op == "unlink":
            fs.j("unlink", p)
            fs.vmap.pop(p, None)
        elif op == "truncate":
            fs.j("truncate", fs.vmap.get(os.path.realpath(p), -1), a[0])
        elif op == "mkdir":
            fs.j("mkdir", p)
        fs.after(soft)
        return r
    f.__name__ = name
    return f


def _sim_stat(path, *a, **kw):
    fs = current
    if fs is not None:
        p = _p(path)
        if p is not None and kw.get("dir_fd") is None:
            if fs.inside(p):
                if fs.frozen:
                    raise SimCrash()
            else:
                fs.outside.append(("stat", p))
    return _real["stat"](path, *a, **kw)


def _sim_fsync(name):
    def f(fd):
        fs = current
        num = fd if isinstance(fd, int) else fd.fileno()
        if fs is None or num not in fs.fds:
            return _real[name](fd)
        p = fs.fds[num]
        soft = fs.hook("fsync", p)
        st = os.fstat(num)
        import stat as _s
        fs.j("dirsync" if _s.S_ISDIR(st.st_mode) else "fsync", fs.vid(num))
        fs.after(soft)
    f.__name__ = name
    return f


def _sim_write(fd, data):
    fs = current
    if fs is None or fd not in fs.fds:
        return _real["write"](fd, data)
    return sim_fd_write(fs, fd, fs.fds[fd], bytes(data))


def _sim_read(fd, n):
    fs = current
    if fs is None or fd not in fs.fds:
        return _real["read"](fd, n)
    soft = fs.hook("read", fs.fds[fd])
    d = _real["read"](fd, max(1, min(n, 3)) if soft == "short" else n)
    fs.after(soft)
    return d


def _sim_close(fd):
    fs = current
    if fs is not None:
        fs.fds.pop(fd, None)
    return _real["close"](fd)


def _sim_ftruncate(fd, size):
    fs = current
    if fs is None or fd not in fs.fds:
        return _real["ftruncate"](fd, size)
    soft = fs.hook("truncate", fs.fds[fd])
    _real["ftruncate"](fd, size)
    fs.j("truncate", fs.vid(fd), size)
    fs.after(soft)


def install():
    builtins.open = io.open = _sim_open
    os.open = _sim_os_open
    os.scandir = _sim_scandir
    os.listdir = _sim_listdir
    os.replace = _two("replace")
    os.rename = _two("rename")
    os.link = _two("link")
    os.unlink = _one("unlink", "unlink")
    os.remove = _one("remove", "unlink")
    os.mkdir = _one("mkdir", "mkdir")
    os.rmdir = _one("rmdir", "rmdir")
    os.truncate = _one("truncate", "truncate")
    os.chmod = _one("chmod", "chmod")
    os.fsync = _sim_fsync("fsync")
    os.fdatasync = _sim_fsync("fdatasync")
    os.write = _sim_write
    os.read = _sim_read
    os.close = _sim_close
    os.ftruncate = _sim_ftruncate
    os.stat = _sim_stat


# ------------------------------------------------------------------------------ power loss
def snapshot(root):
    """{path: bytes} of all regular files under root (real file system)."""
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with _real_open(p, "rb") as h:
                out[p] = h.read()
    return out


def power_loss(before, journal, rng):
    """A disk state allowed after losing power: {path: bytes}.

    Data reaches the disk only when synced (otherwise any subset of the writes, possibly torn); directory
    operations are journalled in order and some prefix of them survives, at least up to the last synced point."""
    names = {p: ino for p, (ino, _) in before.items()}
    data = {ino: bytearray(b) for ino, b in before.values()}
    last_sync = {}
    meta_min = 0
    meta = [i for i, r in enumerate(journal) if r[0] in ("create", "rename", "unlink", "link", "mkdir")]
    for i, r in enumerate(journal):
        if r[0] == "fsync":
            last_sync[r[1]] = i
        elif r[0] == "dirsync":
            meta_min = i
    floor = sum(1 for i in meta if i < meta_min)
    keep = set(meta[:rng.randint(floor, len(meta))])
    for i, r in enumerate(journal):
        if r[0] in ("write", "truncate"):
            ino = r[1]
            if last_sync.get(ino, -1) < i:
                x = rng.random()
                if x < 0.5:
                    continue
                if r[0] == "write" and x < 0.65:
                    r = (*r[:3], r[3][:rng.randrange(len(r[3]) + 1)])
            b = data.setdefault(ino, bytearray())
            if r[0] == "truncate":
                if len(b) > r[2]:
                    del b[r[2]:]
                else:
                    b.extend(b"\0" * (r[2] - len(b)))
            else:
                off, d = r[2], r[3]
                if len(b) < off:
                    b.extend(b"\0" * (off - len(b)))
                b[off:off + len(d)] = d
        elif r[0] in ("create", "rename", "unlink", "link"):
            if r[0] == "create":
                data.setdefault(r[2], bytearray())
            if i not in keep:
                continue
            if r[0] == "create":
                names[r[1]] = r[2]
            elif r[0] == "rename":
                if r[1] in names:
                    names[r[2]] = names.pop(r[1])
            elif r[0] == "link":
                if r[1] in names:
                    names[r[2]] = names[r[1]]
            else:
                names.pop(r[1], None)
    return {p: bytes(data.get(ino, b"")) for p, ino in names.items()}
