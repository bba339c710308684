"""Simulated disk: every file operation below one root goes through here.

The files themselves are real files of a scratch directory (so the code under
test runs unchanged), but each operation is numbered, journalled and may be made
to fail.  The journal is enough to rebuild what a crash would leave behind:

  process crash  the first k operations happened, user-space buffers are lost;
  power crash    additionally every file keeps what its last fsync covered and
                 any prefix (possibly torn) or none of what was written since;
                 names change in order, and a later fsync of any file commits
                 the earlier name changes.

Faults are given as a list of {"op": k, "kind": ...}; see KINDS.
"""
import builtins
import errno
import io
import os
import random
import shutil

KINDS = {
    "open": ["EACCES", "ENOSPC", "EMFILE"],
    "openr": ["EACCES", "EIO", "EMFILE"],
    "write": ["ENOSPC", "EIO", "short", "full", "torn-ENOSPC"],
    "read": ["EIO", "short"],
    "fsync": ["EIO", "ENOSPC"],
    "rename": ["EIO", "ENOSPC", "EACCES"],
    "unlink": ["EIO", "EACCES"],
    "trunc": ["EIO", "ENOSPC"],
    "close": ["EIO", "ENOSPC"],
    "mkdir": ["ENOSPC", "EACCES"],
}


class SimCrash(BaseException):
    """The simulated machine stopped here."""


def _err(name, path):
    n = name.replace("torn-", "")
    return OSError(getattr(errno, n), os.strerror(getattr(errno, n)), path)


class Disk:
    def __init__(self, root, faults=(), crash_at=None):
        self.root = os.path.realpath(root)
        self.ops = []  # [class, relpath, ...]
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f["op"], []).append(f)
        self.crash_at = crash_at
        self.dead = False
        self.full = False
        self.fired = []
        self.on = False
        self.off = 0  # >0: pass through (harness' own file use)
        self.names = {}  # relpath -> file id
        self.nid = 0
        self.fds = {}  # fd -> (file id, relpath)
        self.init = {}  # contents of files that were there before
        self.real = {}

    # ------------------------------------------------------------ set-up
    def install(self):
        for dp, dn, fn in os.walk(self.root):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                with open(p, "rb") as fp:
                    self.init[rel] = fp.read()
                self.names[rel] = self.new_id()
        self.init_names = dict(self.names)
        r = self.real
        for n in (
            "open read write pread pwrite close fsync fdatasync replace rename remove unlink truncate ftruncate mkdir rmdir sendfile posix_fallocate writev dup copy_file_range"
        ).split():
            if hasattr(os, n):
                r[n] = getattr(os, n)
        r["bopen"] = builtins.open
        builtins.open = self.sim_open
        io.open = self.sim_open
        os.replace = lambda s, d, **k: self.rename(r["replace"], s, d, k)
        os.rename = lambda s, d, **k: self.rename(r["rename"], s, d, k)
        os.remove = lambda p, **k: self.unlink(r["remove"], p, k)
        os.unlink = lambda p, **k: self.unlink(r["unlink"], p, k)
        os.fsync = lambda fd: self.fsync(r["fsync"], fd)
        if "fdatasync" in r:
            os.fdatasync = lambda fd: self.fsync(r["fdatasync"], fd)
        os.truncate = self.truncate
        os.ftruncate = self.ftruncate
        os.mkdir = self.mkdir
        os.open = self.os_open
        os.write = self.os_write
        os.read = self.os_read
        os.close = self.os_close
        shutil._USE_CP_SENDFILE = False
        self.on = True
        return self

    def new_id(self):
        self.nid += 1
        return self.nid

    def rel(self, p):
        """Path below the root, or None when it is not the simulator's business."""
        if self.off or not self.on or isinstance(p, int):
            return None
        try:
            q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p)))), os.path.basename(os.fspath(p)))
        except (TypeError, ValueError):
            return None
        if isinstance(q, bytes):
            q = os.fsdecode(q)
        if q == self.root or not q.startswith(self.root + os.sep):
            return None
        return q[len(self.root) + 1 :]

    # ------------------------------------------------------ op accounting
    def step(self, cls, path):
        """Count an operation; returns the fault to inject, if any."""
        if self.dead:
            raise SimCrash()
        k = len(self.ops)
        if self.crash_at is not None and k >= self.crash_at:
            self.dead = True
            raise SimCrash()
        for f in [f for f in self.faults.get(k, ()) if f["kind"] in KINDS.get(cls, ())]:
            self.fired.append((cls, f["kind"], path))
            return f["kind"]
        if self.full and cls in ("write", "open") and self.full_applies(path):
            self.fired.append((cls, "ENOSPC", path))
            return "ENOSPC"
        return None

    def full_applies(self, path):
        return True

    # ------------------------------------------------------------- files
    def sim_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rp = self.rel(file)
        if rp is None:
            if isinstance(file, int) and file in self.fds and not self.off:
                fid, rp = self.fds[file]
            else:
                return self.real["bopen"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = SimRaw(self, file, mode.replace("t", "").replace("b", ""), fid, rp, closefd=closefd)
        else:
            m = mode.replace("t", "").replace("b", "").replace("U", "")
            wr = any(c in m for c in "wax+")
            f = self.step("open" if wr else "openr", rp)
            if f and f != "full":
                self.ops.append(["fail", rp, f])
                raise _err(f, str(file))
            if wr and os.path.isdir(str(file)):
                raise _err("EISDIR", str(file))
            old = os.path.exists(file)
            if not old and not wr:
                raise _err("ENOENT", str(file))
            if not old:
                if not os.path.isdir(os.path.dirname(os.path.join(self.root, rp))):
                    raise _err("ENOENT", str(file))
                self.names[rp] = self.new_id()
            elif rp not in self.names:
                self.names[rp] = self.new_id()
            fid = self.names[rp]
            if wr:
                self.ops.append(["open", rp, fid, "w" in m and old, not old])
            else:
                self.ops.append(["openr", rp, fid])
            raw = SimRaw(self, file, m, fid, rp, opener=opener)
        if "b" in mode and buffering == 0:
            return raw
        line = False
        if buffering == 1 and "b" not in mode:
            buffering, line = -1, True
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        return t

    def rename(self, fn, s, d, k):
        rs, rd = self.rel(s), self.rel(d)
        if rs is None and rd is None:
            return fn(s, d, **k)
        f = self.step("rename", rs or str(s))
        if f:
            self.ops.append(["fail", rs, f])
            raise _err(f, str(s))
        fn(s, d, **k)
        self.ops.append(["rename", rs, rd])
        if rs in self.names:
            self.names[rd] = self.names.pop(rs)

    def unlink(self, fn, p, k):
        rp = self.rel(p)
        if rp is None:
            return fn(p, **k)
        f = self.step("unlink", rp)
        if f:
            self.ops.append(["fail", rp, f])
            raise _err(f, str(p))
        fn(p, **k)
        self.ops.append(["unlink", rp])
        self.names.pop(rp, None)

    def fsync(self, fn, fd):
        n = fd if isinstance(fd, int) else fd.fileno()
        if self.off or n not in self.fds:
            return fn(fd)
        fid, rp = self.fds[n]
        f = self.step("fsync", rp)
        if f:
            self.ops.append(["fail", rp, f])
            raise _err(f, rp)
        self.ops.append(["fsync", rp, fid])

    def truncate(self, p, size):
        rp = self.rel(p)
        if rp is None:
            return self.real["truncate"](p, size)
        f = self.step("trunc", rp)
        if f:
            self.ops.append(["fail", rp, f])
            raise _err(f, rp)
        self.real["truncate"](p, size)
        self.ops.append(["trunc", rp, self.names.get(rp), size])

    def ftruncate(self, fd, size):
        if self.off or fd not in self.fds:
            return self.real["ftruncate"](fd, size)
        fid, rp = self.fds[fd]
        f = self.step("trunc", rp)
        if f:
            self.ops.append(["fail", rp, f])
            raise _err(f, rp)
        self.real["ftruncate"](fd, size)
        self.ops.append(["trunc", rp, fid, size])

    def mkdir(self, p, mode=0o777, **k):
        rp = self.rel(p)
        if rp is None:
            return self.real["mkdir"](p, mode, **k)
        f = self.step("mkdir", rp)
        if f:
            self.ops.append(["fail", rp, f])
            raise _err(f, rp)
        self.real["mkdir"](p, mode, **k)
        self.ops.append(["mkdir", rp])

    def os_open(self, p, flags, mode=0o777, **k):
        rp = self.rel(p)
        if rp is None or flags & getattr(os, "O_DIRECTORY", 0) or os.path.isdir(p):
            return self.real["open"](p, flags, mode, **k)
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        f = self.step("open" if wr else "openr", rp)
        if f and f != "full":
            self.ops.append(["fail", rp, f])
            raise _err(f, str(p))
        old = os.path.exists(p)
        fd = self.real["open"](p, flags, mode, **k)
        if rp not in self.names:
            self.names[rp] = self.new_id()
        fid = self.names[rp]
        if wr:
            self.ops.append(["open", rp, fid, bool(old and flags & os.O_TRUNC), not old])
        else:
            self.ops.append(["openr", rp, fid])
        self.fds[fd] = (fid, rp)
        return fd

    def do_write(self, fd, fid, rp, b, write):
        b = bytes(b)
        f = self.step("write", rp)
        if f == "full":
            self.full = True
        if f in ("full", "torn-ENOSPC") and len(b) > 1 and f == "full":
            b = b[: len(b) // 2]
            f = None
        elif f == "short":
            b = b[: max(1, len(b) // 2)]
            f = None
        elif f == "full":
            f = "ENOSPC"
        if f == "torn-ENOSPC":
            if len(b) > 1:
                n = write(b[: len(b) // 2])
                self.ops.append(["write", rp, fid, self.real_pos(fd) - n, b[:n]])
            else:
                self.ops.append(["fail", rp, f])
            raise _err(f, rp)
        if f:
            self.ops.append(["fail", rp, f])
            raise _err(f, rp)
        n = write(b)
        self.ops.append(["write", rp, fid, self.real_pos(fd) - n, b[:n]])
        return n

    def real_pos(self, fd):
        return os.lseek(fd, 0, os.SEEK_CUR)

    def os_write(self, fd, b):
        if self.off or fd not in self.fds:
            return self.real["write"](fd, b)
        fid, rp = self.fds[fd]
        return self.do_write(fd, fid, rp, b, lambda x: self.real["write"](fd, x))

    def os_read(self, fd, n):
        if self.off or fd not in self.fds:
            return self.real["read"](fd, n)
        fid, rp = self.fds[fd]
        f = self.step("read", rp)
        self.ops.append(["read", rp, fid])
        if f == "short":
            n = max(1, n // 2)
        elif f:
            raise _err(f, rp)
        return self.real["read"](fd, n)

    def os_close(self, fd):
        if not self.off and fd in self.fds:
            fid, rp = self.fds.pop(fd)
        return self.real["close"](fd)

    # -------------------------------------------------- after the crash
    def state_after(self, k, power=False, rng=None, torn=None):
        """Files {relpath: bytes} found after a crash before operation k.

        torn: number of bytes of operation k (a write) that still got through.
        """
        rng = rng or random.Random(0)
        ops = self.ops[:k]
        data, log = {}, {}  # by file id: durable bytes, later writes
        names = dict(self.init_names)
        for p, fid in names.items():
            data[fid] = bytearray(self.init[p])
        nops = []  # namespace changes not yet certain
        dn = dict(names)  # durable names
        live = {f: bytearray(b) for f, b in data.items()}

        def name_op(op):
            if op[0] == "open":
                if op[4]:
                    return lambda t: t.__setitem__(op[1], op[2])
            elif op[0] == "rename":
                def g(t):
                    if op[1] in t:
                        t[op[2]] = t.pop(op[1])
                return g
            elif op[0] == "unlink":
                return lambda t: t.pop(op[1], None)
            return None

        if torn is not None and k < len(self.ops) and self.ops[k][0] == "write":
            w = list(self.ops[k])
            w[4] = w[4][:torn]
            ops = ops + [w]
        for op in ops:
            c = op[0]
            g = name_op(op)
            if g:
                g(names)
                nops.append(g)
            if c == "open":
                fid = op[2]
                live.setdefault(fid, bytearray())
                data.setdefault(fid, bytearray())
                if op[3]:
                    live[fid] = bytearray()
                    log.setdefault(fid, []).append(("t", 0))
            elif c == "write":
                _, _, fid, off, b = op
                self.apply(live[fid], ("w", off, b))
                log.setdefault(fid, []).append(("w", off, b))
            elif c == "trunc":
                if op[2] in live:
                    self.apply(live[op[2]], ("t", op[3]))
                    log.setdefault(op[2], []).append(("t", op[3]))
            elif c == "fsync":
                fid = op[2]
                data[fid] = bytearray(live[fid])
                log[fid] = []
                for x in nops:
                    x(dn)
                nops = []
        if not power:
            return {p: bytes(live[f]) for p, f in names.items()}
        for x in nops[: rng.randint(0, len(nops))]:
            x(dn)
        out = {}
        for p, fid in dn.items():
            b = bytearray(data[fid])
            lg = log.get(fid, [])
            keep = rng.choice([0, len(lg), rng.randint(0, len(lg))])
            for j, w in enumerate(lg[:keep]):
                if w[0] == "w" and j == keep - 1 and len(w[2]) > 1 and rng.random() < 0.5:
                    w = ("w", w[1], w[2][: rng.randint(0, len(w[2]) - 1)])
                self.apply(b, w)
            out[p] = bytes(b)
        return out

    @staticmethod
    def apply(b, w):
        if w[0] == "t":
            if len(b) > w[1]:
                del b[w[1] :]
            else:
                b.extend(b"\0" * (w[1] - len(b)))
        else:
            _, off, d = w
            if off > len(b):
                b.extend(b"\0" * (off - len(b)))
            b[off : off + len(d)] = d

    def quiet(self):
        return _Off(self)


class _Off:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.d.off += 1

    def __exit__(self, *a):
        self.d.off -= 1


class SimRaw(io.FileIO):
    def __init__(self, disk, file, mode, fid, rp, closefd=True, opener=None):
        self.disk, self.fid, self.rp = disk, fid, rp
        # internal open must not be counted again
        disk.off += 1
        try:
            super().__init__(file, mode, closefd=closefd, opener=opener)
        finally:
            disk.off -= 1
        self.wr = any(c in mode for c in "wax+")
        self.fd0 = self.fileno()
        disk.fds[self.fd0] = (fid, rp)

    def write(self, b):
        d = self.disk
        if d.off:
            return super().write(b)
        return d.do_write(self.fd0, self.fid, self.rp, b, super().write)

    def readinto(self, b):
        d = self.disk
        if d.off:
            return super().readinto(b)
        f = d.step("read", self.rp)
        d.ops.append(["read", self.rp, self.fid])
        if f == "short" and len(b) > 1:
            mv = memoryview(b)[: max(1, len(b) // 3)]
            return super().readinto(mv)
        if f and f != "short":
            raise _err(f, self.rp)
        return super().readinto(b)

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def truncate(self, size=None):
        d = self.disk
        if d.off:
            return super().truncate(size)
        if size is None:
            size = self.tell()
        f = d.step("trunc", self.rp)
        if f:
            d.ops.append(["fail", self.rp, f])
            raise _err(f, self.rp)
        n = super().truncate(size)
        d.ops.append(["trunc", self.rp, self.fid, size])
        return n

    def close(self):
        if self.closed:
            return
        d = self.disk
        if d.off or not self.wr:
            d.fds.pop(getattr(self, "fd0", None), None)
            return super().close()
        f = None
        try:
            f = d.step("close", self.rp)
            d.ops.append(["close", self.rp, self.fid])
        finally:
            d.fds.pop(self.fd0, None)
            super().close()
        if f:
            raise _err(f, self.rp)
