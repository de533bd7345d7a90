"""A simulated disk over a scratch directory.

Mutating file-system calls below the root go through `SimDisk.point`, where an error, a short write, an
interruption, a process kill or a power loss can be injected.  A durability model says what may be on disk after a
power loss: directory operations survive as a prefix of their order, file data survives if it was fsynced and is
otherwise lost, partial, zeroed or complete.
"""
import builtins
import errno
import io
import os
import shutil

from seams import Interrupted

R = {k: getattr(os, k) for k in ("open", "close", "write", "fsync", "fdatasync", "unlink", "remove", "rename", "replace",
                                 "mkdir", "rmdir", "link", "symlink", "truncate", "ftruncate", "pwrite", "writev", "sendfile")}
R_OPEN = builtins.open


class Killed(BaseException):
    """The simulated process is gone."""


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, mode, name):
        self.disk, self.fd, self._mode, self.name = disk, fd, mode, name
        self.mode = mode

    def fileno(self):
        return self.fd

    def readable(self):
        return "r" in self._mode or "+" in self._mode

    def writable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        data = os.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self.disk.do("ftruncate", lambda: R["ftruncate"](self.fd, size), self.fd)
        return size

    def write(self, b):
        if self.disk.dead:
            return len(b)
        return self.disk.write(self.fd, b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fd, self.fd = self.fd, -1
                self.disk.close(fd)


class SimDisk:
    def __init__(self, root, bufsize=512):
        self.root = os.path.realpath(root) + os.sep
        self.bufsize = bufsize
        self.fds = {}           # fd -> path
        self.calls = 0
        self.plan = {}          # call number -> (kind, arg)
        self.dead = False
        self.full = False
        self.fired = []
        self.log = []
        self.checkpoint()

    # ---- durability model
    def _tree(self):
        files, dirs = {}, set()
        for dp, dn, fn in os.walk(self.root):
            for d in dn:
                dirs.add(os.path.relpath(os.path.join(dp, d), self.root))
            for f in fn:
                p = os.path.join(dp, f)
                files[os.path.relpath(p, self.root)] = (os.lstat(p).st_ino, R_OPEN(p, "rb").read())
        return files, dirs

    def checkpoint(self):
        """Everything written so far reaches the disk."""
        files, dirs = self._tree()
        self.base_names = {p: ino for p, (ino, _) in files.items()}
        self.base_dirs = dirs
        self.synced = {ino: data for ino, data in files.values()}
        self.journal = []
        self.dir_synced = 0
        self.dirty = set()
        self.gone = {}      # content of unlinked / replaced inodes

    def _content(self, ino):
        files, _ = self._tree()
        for p, (i, data) in files.items():
            if i == ino:
                return data
        return self.gone.get(ino, b"")

    def power_loss(self, choice):
        """Replaces the scratch directory by one state that a power loss at this moment may leave."""
        n = len(self.journal)
        lo = self.dir_synced
        k = lo + choice[0] % (n - lo + 1)
        names, dirs = dict(self.base_names), set(self.base_dirs)
        for op in self.journal[:k]:
            if op[0] == "create":
                names[op[1]] = op[2]
            elif op[0] == "unlink":
                names.pop(op[1], None)
            elif op[0] == "rename":
                if op[1] in names:
                    names[op[2]] = names.pop(op[1])
            elif op[0] == "mkdir":
                dirs.add(op[1])
            elif op[0] == "rmdir":
                dirs.discard(op[1])
        out = {}
        for p, ino in names.items():
            base = self.synced.get(ino, b"")
            if ino in self.dirty:
                cur = self._content(ino)
                c = choice[1] % 5
                out[p] = [base, cur[:len(cur) // 2], b"\0" * len(cur), cur, b""][c]
            else:
                out[p] = base
        for e in os.listdir(self.root):
            p = os.path.join(self.root, e)
            shutil.rmtree(p) if os.path.isdir(p) else R["unlink"](p)
        for d in sorted(dirs):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for p, data in out.items():
            q = os.path.join(self.root, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with R_OPEN(q, "wb") as f:
                f.write(data)
        return k, n

    # ---- fault points
    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        return p.startswith(self.root)

    def rel(self, path):
        p = os.path.abspath(os.fspath(path))
        return os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p)), self.root)

    def point(self, what):
        if self.dead:
            raise Killed(what)
        i = self.calls
        self.calls += 1
        self.log.append(what)
        f = self.plan.get(i)
        if f is None:
            return None
        kind = f[0]
        self.fired.append((kind, what))
        if kind in ("kill", "power"):
            self.dead = True
            raise Killed(what)
        if kind == "interrupt":
            raise Interrupted(what)
        if kind == "memory":
            raise MemoryError(what)
        if kind == "full":
            self.full = True
            if what == "write" or what.startswith("open"):
                raise OSError(errno.ENOSPC, "No space left on device")
            return None
        if kind == "eio":
            raise OSError(errno.EIO, "Input/output error")
        if kind == "eacces":
            raise OSError(errno.EACCES, "Permission denied")
        return kind

    def do(self, what, fn, fd=None):
        self.point(what)
        r = fn()
        if fd is not None:
            self._dirty(fd)
        return r

    def _dirty(self, fd):
        self.dirty.add(os.fstat(fd).st_ino)

    def write(self, fd, data):
        act = self.point("write")
        n = len(data)
        if self.full:
            raise OSError(errno.ENOSPC, "No space left on device")
        if act in ("short", "shortfull"):
            n = max(1, n // 2)
            if act == "shortfull":
                self.full = True
        w = R["write"](fd, memoryview(data).cast("B")[:n])
        self._dirty(fd)
        return w

    def close(self, fd):
        self.fds.pop(fd, None)
        try:
            R["close"](fd)
        except OSError:
            pass
        if not self.dead:
            act = self.plan.get(self.calls)
            # an error or crash at close
            self.point("close")

    def sync(self, fd):
        self.point("fsync")
        if os.path.isdir(f"/proc/self/fd/{fd}"):
            self.dir_synced = len(self.journal)
            return
        ino = os.fstat(fd).st_ino
        self.synced[ino] = self._content(ino)
        self.dirty.discard(ino)

    def os_open(self, path, flags, mode=0o777, dir_fd=None):
        if not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            fd = R["open"](path, flags, mode, dir_fd=dir_fd)
            self.fds[fd] = os.fspath(path)
            return fd
        self.point("open")
        new = not os.path.lexists(path)
        fd = R["open"](path, flags, mode, dir_fd=dir_fd)
        self.fds[fd] = os.fspath(path)
        if new:
            self.journal.append(("create", self.rel(path), os.fstat(fd).st_ino))
            self.dirty.add(os.fstat(fd).st_ino)
        elif flags & os.O_TRUNC:
            self._dirty(fd)
        return fd

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not any(ch in mode for ch in "wax+"):
            return R_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(file, int):
            fd = file
        else:
            flags = {"w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}.get(mode.strip("bt+")[:1], 0)
            flags |= os.O_RDWR if "+" in mode else os.O_WRONLY
            flags |= os.O_CLOEXEC
            fd = opener(file, flags) if opener else self.os_open(file, flags, 0o666)
        raw = SimRaw(self, fd, mode, file)
        if buffering == 0:
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def _lose(self, path):
        try:
            st = os.lstat(path)
            self.gone[st.st_ino] = R_OPEN(path, "rb").read()
        except OSError:
            pass

    # ---- installation
    def __enter__(self):
        d = self

        def wrap_open(file, *a, **kw):
            if (isinstance(file, int) and file in d.fds) or (not isinstance(file, int) and d.mine(file)):
                return d.open(file, *a, **kw)
            return R_OPEN(file, *a, **kw)

        def w_osopen(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is None and d.mine(path):
                return d.os_open(path, flags, mode)
            return R["open"](path, flags, mode, dir_fd=dir_fd)

        def w_write(fd, data):
            if fd in d.fds:
                return len(data) if d.dead else d.write(fd, data)
            return R["write"](fd, data)

        def w_close(fd):
            if fd in d.fds:
                return d.close(fd)
            return R["close"](fd)

        def w_sync(name):
            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                if n in d.fds:
                    return d.sync(n)
                return R[name](fd)
            return f

        def w_unlink(path, *, dir_fd=None):
            if dir_fd is None and d.mine(path):
                d.point("unlink")
                d._lose(path)
                R["unlink"](path)
                d.journal.append(("unlink", d.rel(path)))
                return
            return R["unlink"](path, dir_fd=dir_fd)

        def w_rename(name):
            def f(src, dst, **kw):
                if d.mine(src) or d.mine(dst):
                    d.point("rename")
                    d._lose(dst)
                    R[name](src, dst, **kw)
                    d.journal.append(("rename", d.rel(src), d.rel(dst)))
                    return
                return R[name](src, dst, **kw)
            return f

        def w_mkdir(path, mode=0o777, *, dir_fd=None):
            if dir_fd is None and d.mine(path):
                if os.path.isdir(path):
                    return R["mkdir"](path, mode)
                d.point("mkdir")
                R["mkdir"](path, mode)
                d.journal.append(("mkdir", d.rel(path)))
                return
            return R["mkdir"](path, mode, dir_fd=dir_fd)

        def w_rmdir(path, *, dir_fd=None):
            if dir_fd is None and d.mine(path):
                d.point("rmdir")
                R["rmdir"](path)
                d.journal.append(("rmdir", d.rel(path)))
                return
            return R["rmdir"](path, dir_fd=dir_fd)

        def w_link(src, dst, **kw):
            if d.mine(dst):
                d.point("link")
                R["link"](src, dst, **kw)
                d.journal.append(("create", d.rel(dst), os.lstat(dst).st_ino))
                return
            return R["link"](src, dst, **kw)

        def w_truncate(path, length):
            if isinstance(path, int) and path in d.fds:
                return d.do("ftruncate", lambda: R["ftruncate"](path, length), path)
            if not isinstance(path, int) and d.mine(path):
                d.point("truncate")
                R["truncate"](path, length)
                d.dirty.add(os.lstat(path).st_ino)
                return
            return R["truncate"](path, length)

        self._saved = (builtins.open, io.open)
        self._sendfile = getattr(shutil, "_USE_CP_SENDFILE", None)
        if self._sendfile is not None:
            shutil._USE_CP_SENDFILE = False
        builtins.open = io.open = wrap_open
        os.open, os.write, os.close = w_osopen, w_write, w_close
        os.fsync, os.fdatasync = w_sync("fsync"), w_sync("fdatasync")
        os.unlink = os.remove = w_unlink
        os.rename, os.replace = w_rename("rename"), w_rename("replace")
        os.mkdir, os.rmdir, os.link = w_mkdir, w_rmdir, w_link
        os.truncate = w_truncate
        os.ftruncate = lambda fd, n: w_truncate(fd, n)
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self._saved
        if self._sendfile is not None:
            shutil._USE_CP_SENDFILE = self._sendfile
        for k, f in R.items():
            setattr(os, k, f)
        for fd in list(self.fds):
            try:
                R["close"](fd)
            except OSError:
                pass
        self.fds.clear()
        return False
