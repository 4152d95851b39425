"""Recording file layer and crash model.

While a Recorder is active, every way Python code can change files (open, os.*, tempfile, shutil, pathlib) goes through recorded os-level operations inside a
scratch directory. `crash_states` enumerates what a crash may leave: operations on names in order up to any point, and for every file any prefix of its data
operations that is not older than its last fsync, the last write torn at any byte."""
import builtins
import io
import os
import tempfile
import _pyio


class Fault(OSError):
    pass


NAMES = ["open", "write", "pwrite", "writev", "ftruncate", "truncate", "fsync", "fdatasync", "close", "replace", "rename", "unlink", "remove", "link", "symlink", "rmdir", "sync", "dup", "dup2", "posix_fallocate", "sendfile", "copy_file_range"]


class Recorder:
    """with Recorder(root): ... ; ops = [(kind, ...)]"""

    def __init__(self, root, fail_at=None):
        self.root = os.path.realpath(root)
        self.ops = []
        self.fds = {}            # fd -> (inode key, position, append)
        self.names = {}          # name -> inode key
        self.content = {}        # inode key -> bytes at start
        self.n = 0
        self.fail_at = fail_at
        self.calls = 0
        for b, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(b, f)
                self.names[p] = self.n
                with open(p, "rb") as fh:
                    self.content[self.n] = fh.read()
                self.n += 1
        self.start = dict(self.names)

    def path(self, p, dir_fd=None):
        if isinstance(p, int):
            return None
        p = os.fsdecode(p)
        d, b = os.path.split(os.path.abspath(p))
        p = os.path.join(os.path.realpath(d), b)
        return p if p == self.root or p.startswith(self.root + "/") else None

    def fault(self):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            raise Fault(28, "no space left on device")

    def __enter__(self):
        R = self
        real = self.real = {n: getattr(os, n) for n in NAMES if hasattr(os, n)}
        self.saved = [(builtins, "open", builtins.open), (io, "open", io.open), (tempfile._io, "open", tempfile._io.open), (os, "fdopen", os.fdopen)]

        def inode(p, create=True):
            q = p
            if os.path.islink(p):
                q = os.path.realpath(p)
            if q not in R.names and create:
                R.names[q] = R.n
                R.content[R.n] = b""
                R.ops.append(("create", q, R.n))
                R.n += 1
            return R.names.get(q)

        def o_open(path, flags, mode=0o777, *, dir_fd=None):
            p = R.path(path)
            if p is None:
                return real["open"](path, flags, mode, dir_fd=dir_fd) if dir_fd is not None else real["open"](path, flags, mode)
            wr = flags & (os.O_WRONLY | os.O_RDWR)
            if wr:
                R.fault()
            fd = real["open"](path, flags, mode)
            if os.path.isdir(p):
                R.fds[fd] = ("dir", p)
                return fd
            i = inode(p)
            R.fds[fd] = ("file", i)
            if flags & os.O_TRUNC:
                R.ops.append(("trunc", i, 0))
            return fd

        def o_write(fd, data):
            if fd not in R.fds:
                return real["write"](fd, data)
            R.fault()
            data = bytes(data)
            n = real["write"](fd, data)
            end = os.lseek(fd, 0, os.SEEK_CUR)
            R.ops.append(("write", R.fds[fd][1], end - n, data[:n]))
            return n

        def o_pwrite(fd, data, off):
            if fd not in R.fds:
                return real["pwrite"](fd, data, off)
            R.fault()
            n = real["pwrite"](fd, data, off)
            R.ops.append(("write", R.fds[fd][1], off, bytes(data)[:n]))
            return n

        def o_writev(fd, bufs):
            return o_write(fd, b"".join(bytes(b) for b in bufs))

        def o_ftruncate(fd, n):
            if fd in R.fds:
                R.fault()
                R.ops.append(("trunc", R.fds[fd][1], n))
            return real["ftruncate"](fd, n)

        def o_truncate(path, n):
            if isinstance(path, int):
                return o_ftruncate(path, n)
            p = R.path(path)
            if p is not None:
                R.fault()
                R.ops.append(("trunc", inode(p), n))
            return real["truncate"](path, n)

        def o_fsync(fd):
            f = fd if isinstance(fd, int) else fd.fileno()
            if f in R.fds:
                R.fault()
                R.ops.append(("fsync",) + R.fds[f])
            return real["fsync"](f)

        def o_sync():
            R.ops.append(("syncall",))

        def o_close(fd):
            R.fds.pop(fd, None)
            return real["close"](fd)

        def o_rename(a, b, *, src_dir_fd=None, dst_dir_fd=None):
            p, q = R.path(a), R.path(b)
            if p is not None or q is not None:
                R.fault()
            r = real["replace"](a, b)
            if p is not None and q is not None:
                i = R.names.pop(p)
                R.names[q] = i
                R.ops.append(("rename", p, q, i))
            elif p is not None:
                R.names.pop(p, None)
                R.ops.append(("unlink", p))
            return r

        def o_unlink(path, *, dir_fd=None):
            p = R.path(path)
            if p is not None:
                R.fault()
            r = real["unlink"](path)
            if p is not None:
                R.names.pop(p, None)
                R.ops.append(("unlink", p))
            return r

        def o_link(a, b, **k):
            p, q = R.path(a), R.path(b)
            if q is not None:
                R.fault()
            r = real["link"](a, b)
            if p is not None and q is not None:
                R.names[q] = R.names[p]
                R.ops.append(("link", q, R.names[p]))
            return r

        def no(name):
            def f(*a, **k):
                raise OSError(38, "%s not available" % name)
            return f

        def o_dup(fd, *a):
            r = real["dup"](fd)
            if fd in R.fds:
                R.fds[r] = R.fds[fd]
            return r

        new = dict(open=o_open, write=o_write, pwrite=o_pwrite, writev=o_writev, ftruncate=o_ftruncate, truncate=o_truncate, fsync=o_fsync, fdatasync=o_fsync,
                   close=o_close, replace=o_rename, rename=o_rename, unlink=o_unlink, remove=o_unlink, link=o_link, sync=o_sync, dup=o_dup,
                   posix_fallocate=no("posix_fallocate"), sendfile=no("sendfile"), copy_file_range=no("copy_file_range"))
        for n, f in new.items():
            if n in real:
                setattr(os, n, f)

        def fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **k):
            return _pyio.open(fd, mode, buffering, encoding or (None if "b" in mode else "utf-8"), *a, **k)

        def open_(file, mode="r", buffering=-1, encoding=None, *a, **k):
            return _pyio.open(file, mode, buffering, encoding or (None if "b" in mode else "utf-8"), *a, **k)
        builtins.open = io.open = open_
        tempfile._io.open = open_
        os.fdopen = fdopen
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(os, n, f)
        for m, n, f in self.saved:
            setattr(m, n, f)


def apply(base, ops, torn=None):
    c = bytearray(base)
    for k, op in enumerate(ops):
        if op[0] == "trunc":
            n = op[2]
            c = c[:n] + bytes(max(0, n - len(c)))
        else:
            off, d = op[2], op[3]
            if torn is not None and k == len(ops) - 1:
                d = d[:torn]
            if len(c) < off:
                c += bytes(off - len(c))
            c[off:off + len(d)] = d
    return bytes(c)


def crash_states(rec, target):
    """every content (None = absent) the target may have after a crash, with the other names present; yields (step, content, others)"""
    seen = set()
    ops = rec.ops
    for step in range(len(ops) + 1):
        for nd in range(step + 1):
            # operations on names are persisted in order: those among the first nd; a synced directory or file fixes earlier ones
            if any(o[0] == "syncall" or (o[0] == "fsync" and o[1] == "dir") for o in ops[nd:step]):
                continue
            if nd < step and ops[nd][0] in ("write", "trunc", "fsync", "syncall"):
                continue
            names = dict(rec.start)
            for o in ops[:nd]:
                if o[0] in ("create", "link"):
                    names[o[1]] = o[2]
                elif o[0] == "rename":
                    names.pop(o[1], None)
                    names[o[2]] = o[3]
                elif o[0] == "unlink":
                    names.pop(o[1], None)
            i = names.get(target)
            others = tuple(sorted(k for k in names if k != target))
            if i is None:
                if (None, others) not in seen:
                    seen.add((None, others))
                    yield step, None, {k: names[k] for k in others}
                continue
            data = [(k, o) for k, o in enumerate(ops[:step]) if o[0] in ("write", "trunc") and o[1] == i]
            sync = max([k for k, o in enumerate(ops[:step]) if o[0] == "syncall" or o[0] == "fsync" and o[1:] == ("file", i)], default=-1)
            lo = sum(1 for k, _ in data if k < sync)
            for m in range(lo, len(data) + 1):
                cur = [o for _, o in data[:m]]
                torns = [None] + (list(range(len(cur[-1][3]))) if m > lo and cur[-1][0] == "write" else [])
                for t in torns:
                    c = apply(rec.content[i], cur, t)
                    if (c, others) not in seen:
                        seen.add((c, others))
                        yield step, c, {k: names[k] for k in others}
