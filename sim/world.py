"""The simulated outside world: files, converter process, network, clock, names.

`install()` puts pass-through seams into the standard library before the package
is imported.  While a World is active (`World.activate()`), every operation on
paths under its root is an event: it is counted, logged, can be made to fail or
be cut short, is a possible thread switch point, and a possible crash point.
"""
import builtins
import collections
import datetime as _datetime_mod
import errno
import gc
import hashlib
import io
import mmap
import os
import shlex
import shutil
import signal
import socket
import stat
import subprocess
import sys
import tempfile
import time
import weakref

from . import core

W = None  # active world

real = {}

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
         "ENOMEM": errno.ENOMEM, "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS, "ESTALE": errno.ESTALE,
         "EPERM": errno.EPERM, "EAGAIN": errno.EAGAIN, "ENOENT": errno.ENOENT}


def oserr(name, path=None):
    e = ERRNO[name]
    return OSError(e, os.strerror(e), path)


class Crash(BaseException):
    pass


class World:
    """One simulated machine rooted at a scratch directory.

    root/tmp   temporary directory          class "tmp"
    root/doc   the caller's documents       class "doc"
    root/kb    knowledge-base files         class "kb"
    """

    def __init__(self, root, faults=(), converter=(), clock=None, crash=None, memo=None, log=None, shorts=None):
        self.root = root
        self.faults = [dict(f, i=i) for i, f in enumerate(faults)]
        self.converter = list(converter)
        self.clock = clock
        self.crash = crash            # {"at": mutation index, "mode": ...}
        self.memo = memo
        self.log = log if log is not None else []
        self.counts = collections.Counter()
        self.fired = collections.Counter()
        self.fired_idx = []
        self.nconv = 0
        self.vanish = None
        self.procs = []
        self.socks = []
        self.files = []
        self.mut = 0                  # mutation event counter (crash points)
        self.mutlog = []
        self.nname = 0
        self.slept = 0.0
        self.phase_conv = 0           # finished converter runs
        self.hide_magic = True
        self.emptied = []             # converter runs that failed without any output
        self.served = []              # HTTP responses: {"url", "seq": [response, ...]}
        self.shorts = dict(shorts or {})              # class -> largest number of bytes one read returns
        self.tracker = None           # called around every mutation (C07)

    # ------------------------------------------------------------------
    def setup(self):
        for d in ("tmp", "doc", "kb"):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)

    def path(self, *a):
        return os.path.join(self.root, *a)

    def begin_step(self, faults=(), converter=(), shorts=None, vanish=None):
        """New fault script; event numbering starts again at 0."""
        self.faults = [dict(f, i=i) for i, f in enumerate(faults)]
        self.converter = list(converter or ())
        self.shorts = dict(shorts or {})
        self.vanish = vanish
        self.counts = collections.Counter()
        self.fired_idx = []
        self.nconv = 0
        self.emptied = []
        self.phase_conv = 0
        self.procs = []
        self.files = []
        self.socks = []

    def after_conv(self):
        """The document changes or goes away once the converter is done with it."""
        v = self.vanish
        if not v or self.phase_conv != v["conv"]:
            return
        for name in os.listdir(self.path("doc")):
            p = self.path("doc", name)
            if v["how"] == "unlink":
                real["os.remove"](p)
            else:
                with real["open"](p, "rb") as fh:
                    b = fh.read()
                b = {"empty": b"", "half": b[:len(b) // 2], "text": b"now a text file\n", "zeros": b[:20] + bytes(max(0, len(b) - 20))}[v["how"]]
                with real["open"](p, "wb") as fh:
                    fh.write(b)
        self.fired["doc.vanish:" + v["how"]] += 1
        self.log.append("vanish " + v["how"])

    def activate(self):
        global W
        W = self
        if _Clock.now is None:
            set_clock(DEFAULT_CLOCK)
        tempfile.tempdir = self.path("tmp")
        tempfile._name_sequence = iter(self._names())
        return self

    def deactivate(self):
        global W
        W = None

    def _names(self):
        n = 0
        while True:
            n += 1
            yield "s%06d" % n

    def classify(self, p):
        if isinstance(p, int):
            try:
                p = os.readlink("/proc/self/fd/%d" % p)
            except OSError:
                return None, None
        try:
            p = os.fsdecode(os.fspath(p))
        except TypeError:
            return None, None
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        if not p.startswith(self.root + os.sep):
            if p.startswith(core.PKG) and p.endswith(".kb"):
                return "kb", "default/" + os.path.basename(p)
            return None, None
        rel = p[len(self.root) + 1:]
        cls = rel.split(os.sep, 1)[0]
        return (cls, rel) if cls in ("tmp", "doc", "kb") else (None, None)

    # ------------------------------------------------------------------
    def event(self, cls, op, detail=""):
        """Count an operation; return the fault that applies to it, if any."""
        s = core.SCHED
        if s is not None:
            s.io_point(f"{cls}.{op}")
        key = f"{cls}.{op}"
        n = self.counts[key]
        self.counts[key] = n + 1
        self.log.append(f"io {key} {n} {detail}")
        for f in self.faults:
            if f["at"] == key and (f["n"] == n or (f.get("sticky") and n >= f["n"])):
                if f.get("conv") is not None and self.phase_conv < f["conv"]:
                    continue
                self.fired[f"{key}:{f['kind']}"] += 1
                if f["i"] not in self.fired_idx:
                    self.fired_idx.append(f["i"])
                self.log.append(f"fault {key} {n} {f['kind']}")
                return f
        return None

    iofns = None      # package functions on the stack of document events, if a set

    def check(self, cls, op, path=None, detail=""):
        if self.iofns is not None and cls == "doc":
            fr = sys._getframe(1)
            while fr is not None:
                k = core.code_key(fr.f_code)
                if k:
                    self.iofns.add(k)
                    break
                fr = fr.f_back
        f = self.event(cls, op, detail)
        if f is not None and f["kind"] in ERRNO:
            raise oserr(f["kind"], path)
        if f is not None and f["kind"] == "memory":
            raise MemoryError("simulated")
        return f

    # -- crash points ----------------------------------------------------
    def mutating(self, what, rel, apply, partial=None):
        """Run a durable-state mutation; maybe crash before, inside or after it."""
        k = self.mut
        self.mut += 1
        self.mutlog.append((k, what, rel))
        c = self.crash
        if c and c["at"] == k:
            self.log.append(f"crash {k} {what} {c['mode']}")
            if c["mode"] == "before":
                self.die(c)
            if c["mode"] == "mid" and partial is not None:
                partial(c.get("frac", 0.5))
                self.die(c)
            r = apply()
            if self.tracker is not None:
                self.tracker.mutated(k, what, rel)
            self.die(c)
            return r
        r = apply()
        if self.tracker is not None:
            self.tracker.mutated(k, what, rel)
        return r

    def die(self, c):
        hook = self.crash_hook
        hook(c)

    crash_hook = staticmethod(lambda c: os._exit(77))

    # -- residue -----------------------------------------------------------
    def residue(self, ignore=()):
        """What a finished call left behind (while its exception, if any, is still held)."""
        out = []
        for name in sorted(os.listdir(self.path("tmp"))):
            out.append("temporary file tmp/" + name)
        for name in sorted(os.listdir(self.path("doc"))):
            if name not in ignore:
                out.append("extra file doc/" + name)
        for name in sorted(os.listdir(self.root)):
            if name not in ("tmp", "doc", "kb"):
                out.append("extra file in the working directory: " + name)
        seen = set()
        for f in self.files:
            o = f()
            if o is not None and not o.closed:
                out.append(f"open file {o._rel}")
                try:
                    seen.add(o.fileno())
                except ValueError:
                    pass
        for fd in sorted(int(x) for x in os.listdir("/proc/self/fd")):
            if fd in seen:
                continue
            try:
                p = os.readlink("/proc/self/fd/%d" % fd)
            except OSError:
                continue
            if p.startswith(self.root + os.sep):
                out.append("open descriptor of " + p[len(self.root) + 1:])
        for p in self.procs:
            if not p["reaped"]:
                out.append("converter process %d not reaped" % p["n"])
        return out

    def open_sockets(self):
        n = 0
        for s in self.socks:
            o = s()
            if o is not None and o.fileno() != -1:
                n += 1
        return n


# ==========================================================================
# files
class SimRaw(io.FileIO):
    _w = None
    _cls = None
    _rel = None

    def _ev(self, op, detail=""):
        w = self._w
        if w is None or w is not W:
            return None
        return w.check(self._cls, op, self._rel, detail)

    def _limit(self, f, n):
        w = self._w
        if w is not None and w is W and self._cls in w.shorts:
            n = max(1, min(n, w.shorts[self._cls]))
        if f is not None and f["kind"] == "short":
            n = max(1, min(n, int(f.get("size", 1))))
        return n

    def readinto(self, b):
        f = self._ev("read")
        k = self._limit(f, len(b))
        if k < len(b):
            return super().readinto(memoryview(b)[:k])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        f = self._ev("read")
        if size > 1:
            size = self._limit(f, size)
        return super().read(size)

    def readall(self):
        parts = []
        while True:
            f = self._ev("read")
            b = super().read(self._limit(f, 65536))
            if not b:
                return b"".join(parts)
            parts.append(b)

    def write(self, b):
        f = self._ev("write", str(len(memoryview(b).cast("B"))))
        data = bytes(memoryview(b).cast("B"))
        w = self._w
        sup = super().write
        if f is not None and f["kind"] == "shortw" and len(data) > 1:
            data = data[:max(1, min(len(data) - 1, int(f.get("size", 1))))]
        if f is not None and f["kind"] == "partial":
            if len(data) > 1:
                sup(data[:len(data) // 2])
            raise oserr("ENOSPC", self._rel)
        if w is None or w is not W:
            return sup(data)
        return w.mutating("write", self._rel, lambda: sup(data),
                          lambda fr: sup(data[:int(len(data) * fr)]) if data else None)

    def truncate(self, size=None):
        self._ev("truncate")
        if size is None:
            size = self.tell()
        w = self._w
        sup = super().truncate
        if w is None or w is not W:
            return sup(size)
        return w.mutating("truncate", self._rel, lambda: sup(size))

    def seek(self, pos, whence=0):
        self._ev("seek")
        return super().seek(pos, whence)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W
    if w is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    cls, rel = w.classify(file)
    if cls is None or not isinstance(mode, str):
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    f = None
    if not isinstance(file, int) and not (w.hide_magic and _called_from("magic")):
        op = "open" if rawmode in ("r",) else "openw"
        f = w.check(cls, op, file, rel.rsplit("/", 1)[-1])
    if not isinstance(file, int) and ("w" in rawmode or "x" in rawmode):
        raw = w.mutating("creat", rel, lambda: SimRaw(file, rawmode, closefd, opener))
    else:
        raw = SimRaw(file, rawmode, closefd, opener)
    raw._w, raw._cls, raw._rel = w, cls, rel
    w.files.append(weakref.ref(raw))
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        line_buffering = buffering == 1
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, bs)
        elif rawmode[0] == "r":
            buf = io.BufferedReader(raw, bs)
        else:
            buf = io.BufferedWriter(raw, bs)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _called_from(modname):
    fr = sys._getframe(2)
    return fr.f_globals.get("__name__", "").split(".")[0] == modname


def _wrap2(name, op):
    """os.<name>(src, dst): rename-like."""
    orig = getattr(os, name)
    real["os." + name] = orig

    def fn(src, dst, **kw):
        w = W
        if w is None:
            return orig(src, dst, **kw)
        cls, rel = w.classify(dst)
        if cls is None:
            return orig(src, dst, **kw)
        w.check(cls, op, os.fspath(dst))
        return w.mutating(op, rel, lambda: orig(src, dst, **kw))
    fn.__name__ = name
    setattr(os, name, fn)


def _wrap1(name, op):
    orig = getattr(os, name)
    real["os." + name] = orig

    def fn(path, *a, **kw):
        w = W
        if w is None:
            return orig(path, *a, **kw)
        cls, rel = w.classify(path)
        if cls is None:
            return orig(path, *a, **kw)
        w.check(cls, op, None if isinstance(path, int) else os.fspath(path))
        if op in ("fsync",):
            w.log.append("fsync " + rel)
            w.mutlog.append((w.mut, "fsync", rel))
            r = orig(path, *a, **kw)
            if w.tracker is not None:
                w.tracker.synced(path if isinstance(path, int) else os.fspath(path))
            return r
        part = None
        if op == "write":
            data = bytes(a[0])
            part = lambda fr: orig(path, data[:int(len(data) * fr)])  # noqa
        return w.mutating(op, rel, lambda: orig(path, *a, **kw), part)
    fn.__name__ = name
    setattr(os, name, fn)


def _wrap_read():
    orig = os.read
    real["os.read"] = orig

    def read(fd, n):
        w = W
        if w is None:
            return orig(fd, n)
        cls, rel = w.classify(fd)
        if cls is None:
            return orig(fd, n)
        f = w.check(cls, "read")
        if f is not None and f["kind"] == "short":
            n = max(1, min(n, int(f.get("size", 1))))
        return orig(fd, n)
    os.read = read


def _wrap_osopen():
    orig = os.open
    real["os.open"] = orig

    def open_(path, flags, mode=0o777, *, dir_fd=None):
        w = W
        if w is None or dir_fd is not None:
            return orig(path, flags, mode, dir_fd=dir_fd)
        cls, rel = w.classify(path)
        if cls is None:
            return orig(path, flags, mode)
        if os.path.isdir(path):
            return orig(path, flags, mode)
        acc = flags & os.O_ACCMODE
        w.check(cls, "open" if acc == os.O_RDONLY else ("creat" if flags & os.O_CREAT else "openw"), path)
        if flags & (os.O_CREAT | os.O_TRUNC):
            return w.mutating("creat", rel, lambda: orig(path, flags, mode))
        return orig(path, flags, mode)
    os.open = open_


class SimMmap(mmap.mmap):
    """mmap whose mutations are crash points (the mapping itself is real)."""

    def __new__(cls, fileno, length, *a, **kw):
        w = W
        rel = None
        c = None
        if w is not None and fileno >= 0:
            c, rel = w.classify(fileno)
            if c is not None:
                w.check(c, "mmap")
        o = super().__new__(cls, fileno, length, *a, **kw)
        o._w = w if c is not None else None
        o._cls, o._rel = c, rel
        return o

    def _mut(self, what, apply, partial=None):
        w = getattr(self, "_w", None)
        if w is None or w is not W:
            return apply()
        w.check(self._cls, "m" + what)
        return w.mutating("m" + what, self._rel, apply, partial)

    def move(self, dest, src, count):
        sup = super().move
        return self._mut("move", lambda: sup(dest, src, count), lambda fr: sup(dest, src, int(count * fr)))

    def resize(self, n):
        sup = super().resize
        return self._mut("resize", lambda: sup(n))

    def flush(self, *a):
        return super().flush(*a)

    def write(self, data):
        sup = super().write
        return self._mut("write", lambda: sup(data), lambda fr: sup(bytes(data)[:int(len(data) * fr)]))

    def __setitem__(self, k, v):
        sup = super().__setitem__
        return self._mut("write", lambda: sup(k, v))


# ==========================================================================
# the converter process
class _PipeRaw(io.RawIOBase):
    def __init__(self, proc, which="out"):
        self.p = proc
        self.which = which
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        p = self.p
        s = core.SCHED
        if s is not None:
            s.io_point("pipe.read")
        w = p.world
        data = p.out if self.which == "out" else b""
        i = p.reads
        p.reads += 1
        f = None
        if w is not None and self.which == "out":
            f = w.check("pipe", "read")
        left = len(data) - self.pos
        if left <= 0:
            if not p.eof and w is not None:
                w.phase_conv += 1
                w.after_conv()
            p.eof = True
            return 0
        sizes = p.script.get("chunks")
        n = len(b)
        if sizes:
            n = min(n, max(1, sizes[i % len(sizes)]))
        n = min(n, left)
        if f is not None and f["kind"] == "short":
            n = 1
        p.passes(n)
        b[:n] = data[self.pos:self.pos + n]
        self.pos += n
        p.consumed = self.pos
        return n

    def close(self):
        if not self.closed:
            self.p.stdout_closed = True
        super().close()

    def fileno(self):
        raise io.UnsupportedOperation("simulated pipe")


def convert(path, args, memo, cwd=None):
    """Real pdftotext on the bytes at `path`, memoised by content and options."""
    try:
        with real["open"](os.path.join(cwd or "", path), "rb") as fh:
            content = fh.read()
    except OSError:
        content = None
    opts = [a for a in args[1:-2] if a]
    key = hashlib.sha256(repr(opts).encode() + b"\0" + (content or b"")).hexdigest()
    if memo and content is not None:
        mp = os.path.join(memo, key)
        try:
            with real["open"](mp, "rb") as fh:
                rc, _, out = fh.read().partition(b"\n")
                return out, int(rc)
        except (OSError, ValueError):
            pass
    p = real["Popen"](list(args), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd)
    out, _ = p.communicate()
    rc = p.returncode
    if memo and content is not None:
        tmp = mp + ".%d" % os.getpid()
        with real["open"](tmp, "wb") as fh:
            fh.write(b"%d\n" % rc + out)
        real["os.replace"](tmp, mp)
    return out, rc


class SimPopen:
    """subprocess.Popen for the converter: real output, scripted delivery and end.

    Script keys: chunks (read sizes), die (fraction or byte count of the output
    delivered before the process ends), rc (exit status), lag (polls before the
    process has exited after its output ended), cap (pipe capacity), slow
    (simulated seconds the conversion takes, in proportion to its output),
    spawn (errno name: the process cannot be started).
    """

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        w = W
        self.args = args
        self.world = w
        self.returncode = None
        self.reaped = False
        self.eof = False
        self.stdout_closed = False
        self.consumed = 0
        self.reads = 0
        self.killed = None
        self.stdin = self.stdout = self.stderr = None
        self.out_path = None
        n = w.nconv
        w.nconv += 1
        self.n = n
        self.pid = 40000 + n
        self.script = sc = dict(w.converter[n]) if n < len(w.converter) and w.converter[n] else {}
        self.lag = int(sc.get("lag", 0))
        self.slow = float(sc.get("slow", 0))
        self.early = b""              # output collected by a communicate() that timed out
        self.cwd = cwd
        w.event("proc", "spawn")
        if sc.get("spawn"):
            w.fired["proc.spawn:" + sc["spawn"]] += 1
            raise oserr(sc["spawn"], str(args[0]))
        argv = shlex.split(args) if isinstance(args, str) else [os.fsdecode(os.fspath(a)) for a in args]
        target = argv[-1]
        if target != "-":
            argv = argv[:-1] + ["-"]
            self.out_path = target
        out, rc = convert(argv[-2], argv, w.memo, cwd)
        die = sc.get("die")
        if die is not None:
            k = int(len(out) * die) if isinstance(die, float) else int(die)
            k = max(0, min(k, len(out)))
            if sc.get("atline"):
                k = out.rfind(b"\n", 0, k) + 1
            out = out[:k]
            rc = sc.get("rc", -9)
            w.fired["proc.die:%s" % ("signal" if rc < 0 else "exit")] += 1
            w.log.append(f"convdie {n} {len(out)} {rc}")
            if not out:
                w.emptied.append(n)
        elif "rc" in sc:
            rc = sc["rc"]
            w.fired["proc.rc"] += 1
        if sc.get("inject") is not None:
            k = sc["inject"] % (len(out) + 1)
            out = out[:k] + b"\xff\xfe" + out[k:]
            w.fired["proc.not_utf8"] += 1
        if sc.get("chunks"):
            w.fired["proc.chunked"] += 1
        if self.lag:
            w.fired["proc.lag"] += 1
        if self.slow:
            w.fired["proc.slow%s" % (":very" if self.slow > 60 else "")] += 1
        self.out = out
        self.rc = rc
        self.cap = int(sc.get("cap", 65536))
        self.entry = {"n": n, "reaped": False}
        w.procs.append(self.entry)
        textmode = text or universal_newlines or encoding or errors
        if self.out_path is not None:
            with real["open"](self.out_path, "wb") as fh:
                fh.write(out)
            self.out = b""
        if stdout == subprocess.PIPE:
            raw = _PipeRaw(self)
            self.raw = raw
            buf = io.BufferedReader(raw, io.DEFAULT_BUFFER_SIZE if bufsize in (-1, 0, 1) else bufsize)
            self.stdout = io.TextIOWrapper(buf, encoding=encoding, errors=errors) if textmode else buf
        else:
            if stdout not in (None, subprocess.DEVNULL):
                fd = stdout if isinstance(stdout, int) else stdout.fileno()
                real["os.write"](fd, self.out)
            self.stdout_closed = True
        if stderr == subprocess.PIPE:
            self.stderr = io.BytesIO(b"") if not textmode else io.StringIO("")

    # -- life cycle --------------------------------------------------------
    def passes(self, n):
        """The time in which the next n bytes of output are produced."""
        if self.slow:
            dt = self.slow * n / max(1, len(self.out))
            advance(dt)
            self.world.slept += dt

    def left(self):
        return self.slow * (len(self.out) - self.consumed) / max(1, len(self.out)) if self.slow else 0.0

    def _can_finish(self):
        if self.killed or self.stdout_closed:
            return True
        return len(self.out) - self.consumed <= self.cap

    def _final(self):
        if self.killed:
            return -self.killed
        if self.stdout is not None and self.stdout_closed and self.consumed < len(self.out) \
                and len(self.out) - self.consumed > self.cap:
            return -int(signal.SIGPIPE)
        return self.rc

    def poll(self):
        if self.returncode is None:
            if not self._can_finish():
                return None
            if self.lag > 0:
                self.lag -= 1
                return None
            self.returncode = self._final()
            self.entry["reaped"] = True
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            s = core.SCHED
            if s is not None:
                s.io_point("proc.wait")
            if not self._can_finish():
                if timeout is not None:
                    raise subprocess.TimeoutExpired(self.args, timeout)
                core.note_stuck("waiting for a converter that waits for its output to be read")
            if timeout is not None and self.killed is None and self.left() > timeout:
                advance(timeout)
                raise subprocess.TimeoutExpired(self.args, timeout)
            if self.lag > 0 and timeout is not None and timeout < 0.001 * self.lag:
                self.lag -= 1
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.lag = 0
            self.returncode = self._final()
            self.entry["reaped"] = True
        return self.returncode

    def communicate(self, input=None, timeout=None):
        out = None
        if self.stdout is not None and timeout is not None and self.killed is None and self.left() > timeout:
            k = int((len(self.out) - self.consumed) * timeout / self.left())
            self.early += self.out[self.consumed:self.consumed + k]
            self.consumed += k
            self.raw.pos = self.consumed
            advance(timeout)
            raise subprocess.TimeoutExpired(self.args, timeout, output=self.early or None)
        if self.stdout is not None:
            out = self.stdout.read()
            out = self.early.decode() + out if isinstance(out, str) else self.early + out
            self.stdout.close()
        err = None
        if self.stderr is not None:
            err = self.stderr.read()
        self.wait(timeout)
        return out, err

    def send_signal(self, sig):
        if self.returncode is None and self.killed is None:
            self.killed = int(sig)
            if self.slow:             # it has not produced more than was read
                self.out = self.out[:self.consumed]

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, tb):
        if self.stdout is not None:
            self.stdout.close()
        if self.stderr is not None:
            self.stderr.close()
        self.wait()

    def __del__(self):
        # what subprocess.Popen.__del__ does: one poll; if still running, a zombie
        e = getattr(self, "entry", None)
        if e is not None and self.returncode is None:
            self.stdout_closed = True
            if self.lag <= 0:
                e["reaped"] = True


class PopenSeam(subprocess.Popen):
    """Bound as subprocess.Popen; decides per call who runs."""

    def __new__(cls, args, *a, **kw):
        w = W
        if w is not None:
            argv = args.split() if isinstance(args, str) else [os.fsdecode(os.fspath(x)) for x in args]
            if argv and os.path.basename(argv[0]).startswith("pdftotext"):
                return SimPopen(args, *a, **kw)
        return super().__new__(cls)


# ==========================================================================
# network
HTTP_TOKENS = {"n": 0}


class SimSocket(real.setdefault("socket", socket.socket)):
    """A stream socket whose peer is the plan's HTTP server script."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        w = W
        self._w = w
        if w is None or fileno is not None:
            super().__init__(family, type, proto, fileno)
            self._sim = False
            return
        super().__init__(socket.AF_UNIX, socket.SOCK_STREAM)
        self._sim = True
        self._in = bytearray()
        self._req = bytearray()
        self._end = None
        self._segs = []
        self._nresp = 0
        w.socks.append(weakref.ref(self))

    def connect(self, addr):
        if not self._sim:
            return super().connect(addr)
        w = self._w
        f = w.event("net", "connect", str(addr[1]))
        if f is not None:
            raise {"refused": ConnectionRefusedError(errno.ECONNREFUSED, "simulated"),
                   "timeout": TimeoutError(errno.ETIMEDOUT, "simulated"),
                   "unreach": OSError(errno.ENETUNREACH, "simulated")}[f["kind"]]

    def settimeout(self, t):
        if not self._sim:
            return super().settimeout(t)

    def setsockopt(self, *a):
        if not self._sim:
            return super().setsockopt(*a)

    def shutdown(self, how):
        if not self._sim:
            return super().shutdown(how)

    def getpeername(self):
        return ("10.0.0.1", 80) if self._sim else super().getpeername()

    def send(self, data, *a):
        if not self._sim:
            return super().send(data, *a)
        self.sendall(data)
        return len(data)

    def sendall(self, data, *a):
        if not self._sim:
            return super().sendall(data, *a)
        w = self._w
        f = w.event("net", "send")
        if f is not None:
            raise ConnectionResetError(errno.ECONNRESET, "simulated")
        self._req += data
        while b"\r\n\r\n" in self._req:
            head, _, rest = bytes(self._req).partition(b"\r\n\r\n")
            self._req = bytearray(rest)
            line = head.split(b"\r\n", 1)[0].decode("latin-1").split(" ")
            host = ""
            for h in head.split(b"\r\n")[1:]:
                if h.lower().startswith(b"host:"):
                    host = h.split(b":", 1)[1].strip().decode()
            self._respond(line[0], host, line[1], head)

    def _respond(self, method, host, target, head):
        w = self._w
        url = f"http://{host}{target}"
        resp = None
        for r in w.served:
            if r["url"] == url or r["url"].split("#")[0] == url:
                k = w.counts["hit:" + url]
                lst = r["seq"]
                resp = lst[min(k, len(lst) - 1)]
                break
        w.counts["hit:" + url] += 1
        w.log.append(f"http {method} {url}")
        if resp is None:
            resp = {"status": 404, "body": "", "framing": "length"}
        stream, end, segs = render(resp)
        self._in += stream
        self._end = end
        self._segs = list(segs)
        self._keep = resp
        for k in resp.get("tags", ()):
            w.fired["net." + k] += 1

    def recv_into(self, buffer, nbytes=0, flags=0):
        if not self._sim:
            return super().recv_into(buffer, nbytes, flags)
        w = self._w
        f = w.event("net", "recv")
        if f is not None:
            if f["kind"] == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "simulated")
            if f["kind"] == "timeout":
                raise TimeoutError(errno.ETIMEDOUT, "simulated")
        n = nbytes or len(buffer)
        if not self._in:
            if self._end == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "simulated")
            if self._end == "timeout":
                raise TimeoutError(errno.ETIMEDOUT, "simulated")
            return 0
        if self._segs:
            seg = self._segs[0]
            take = min(n, seg, len(self._in))
            if take == seg:
                self._segs.pop(0)
            else:
                self._segs[0] = seg - take
        else:
            take = min(n, len(self._in))
        memoryview(buffer)[:take] = self._in[:take]
        del self._in[:take]
        return take

    def recv(self, n, flags=0):
        if not self._sim:
            return super().recv(n, flags)
        b = bytearray(n)
        k = self.recv_into(b, n)
        return bytes(b[:k])


def render(resp):
    """Bytes on the wire, how the connection ends, and segment sizes."""
    import base64
    import zlib
    if "doc" in resp:
        from . import ops
        body = ops.doc_bytes(resp["doc"])
    else:
        body = base64.b64decode(resp["body"]) if resp.get("b64") else resp.get("body", "").encode()
    hdr = ["HTTP/1.1 %d %s" % (resp["status"], "X")]
    headers = dict(resp.get("headers", {}))
    if resp.get("gzip"):
        co = zlib.compressobj(6, zlib.DEFLATED, 31)
        body = co.compress(body) + co.flush()
        headers["Content-Encoding"] = "gzip"
    framing = resp.get("framing", "length")
    if framing == "length":
        headers["Content-Length"] = str(len(body))
        wire = body
    elif framing == "chunked":
        headers["Transfer-Encoding"] = "chunked"
        sizes = resp.get("chunks") or [1000]
        out = bytearray()
        i = k = 0
        while i < len(body):
            c = body[i:i + max(1, sizes[k % len(sizes)])]
            out += b"%x%s\r\n" % (len(c), b";ext=1" if resp.get("chunkext") else b"") + c + b"\r\n"
            i += len(c)
            k += 1
        out += b"0\r\n" + (b"X-Trailer: 1\r\n" if resp.get("chunkext") else b"") + b"\r\n"
        wire = bytes(out)
    else:
        headers["Connection"] = "close"
        wire = body
    hdr += [f"{k}: {v}" for k, v in headers.items()]
    head = ("\r\n".join(hdr) + "\r\n\r\n").encode("latin-1")
    stream = head + wire
    end = "fin"
    cut = resp.get("cut")
    if cut is not None:
        if cut["where"] == "head":
            stream = stream[:int(len(head) * cut["frac"])]
        else:
            k = min(int(len(wire) * cut["frac"]), max(0, len(wire) - 1))
            if cut.get("drop"):
                k = max(0, len(wire) - cut["drop"])
            stream = head + wire[:k]
        end = cut["end"]
    segs = []
    pat = resp.get("segs")
    if pat:
        tot = 0
        i = 0
        while tot < len(stream) and len(segs) < 4000:
            s = max(1, pat[i % len(pat)])
            segs.append(s)
            tot += s
            i += 1
    return stream, end, segs


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    w = W
    if w is None:
        return real["getaddrinfo"](host, port, family, type, proto, flags)
    f = w.event("net", "dns")
    if f is not None:
        raise socket.gaierror(socket.EAI_AGAIN, "simulated")
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("10.0.0.1", port or 80))]


# ==========================================================================
# clock
DEFAULT_CLOCK = 1781524800.0          # 2026-06-15


class _Clock:
    now = None  # simulated UTC timestamp (float) or None for the real clock
    mono = 1000.0
    jump = None
    reads = 0


def clock_now():
    """One reading of the simulated clock (which may step at a chosen reading)."""
    if _Clock.now is None:
        return None
    j = _Clock.jump
    if j is not None:
        if _Clock.reads == j["n"]:
            j["done"] = True
            _Clock.now = j["to"]
        _Clock.reads += 1
    return _Clock.now


def set_jump(j):
    """Arm a step of the clock; returns whether the previously armed one happened."""
    old = _Clock.jump
    _Clock.jump = dict(j) if j else None
    _Clock.reads = 0
    return bool(old and old.get("done"))


_RealDT = _datetime_mod.datetime
_RealDate = _datetime_mod.date


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _RealDT)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealDT)


class SimDatetime(_RealDT, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        if (_now := clock_now()) is None:
            return _RealDT.now(tz)
        if tz is None:
            return _RealDT.fromtimestamp(_now)
        return _RealDT.fromtimestamp(_now, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now(_datetime_mod.timezone.utc).replace(tzinfo=None)


class _DateMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _RealDate)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealDate)


class SimDate(_RealDate, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        if (_now := clock_now()) is None:
            return _RealDate.today()
        return _RealDT.fromtimestamp(_now).date()


def set_clock(ts):
    if ts is not None and _Clock.now is not None:
        _Clock.mono += max(0.0, ts - _Clock.now)
    _Clock.now = ts


def advance(s):
    """Simulated time passes."""
    if _Clock.now is not None:
        _Clock.now += s
        _Clock.mono += s


def _wrap_time():
    def w0(name):
        orig = getattr(time, name)
        real["time." + name] = orig

        def fn():
            now = clock_now()
            return orig() if now is None else now
        fn.__name__ = name
        setattr(time, name, fn)

    def w1(name):
        orig = getattr(time, name)
        real["time." + name] = orig

        def fn(secs=None):
            if secs is None and _Clock.now is not None:
                return orig(clock_now())
            return orig(secs) if secs is not None else orig()
        fn.__name__ = name
        setattr(time, name, fn)
    w0("time")
    for name, scale in (("monotonic", 1), ("perf_counter", 1), ("monotonic_ns", 10 ** 9), ("perf_counter_ns", 10 ** 9), ("time_ns", 0)):
        def fn(orig=getattr(time, name), scale=scale):
            if _Clock.now is None:
                return orig()
            return int(clock_now() * 10 ** 9) if not scale else _Clock.mono if scale == 1 else int(_Clock.mono * scale)
        real["time." + name] = getattr(time, name)
        setattr(time, name, fn)
    w1("gmtime")
    w1("localtime")
    orig_strftime = time.strftime
    real["time.strftime"] = orig_strftime

    def strftime(fmt, t=None):
        if t is None:
            t = time.localtime()
        return orig_strftime(fmt, t)
    time.strftime = strftime
    orig_sleep = time.sleep
    real["time.sleep"] = orig_sleep

    def sleep(s):
        w = W
        if w is None:
            return orig_sleep(s)
        w.slept += s
        w.log.append(f"sleep {s}")
        advance(s)
        sc = core.SCHED
        if sc is not None:
            th = sc.current()
            if th is not None:
                sc.switch(th, None, "sleep")
    time.sleep = sleep


_installed = False


def install():
    """Install all seams (pass-through until a World is activated)."""
    global _installed
    if _installed:
        return
    _installed = True
    real["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    real["Popen"] = subprocess.Popen
    subprocess.Popen = PopenSeam
    real["getaddrinfo"] = socket.getaddrinfo
    socket.socket = SimSocket
    socket.getaddrinfo = sim_getaddrinfo
    for n, op in (("replace", "rename"), ("rename", "rename"), ("link", "link")):
        _wrap2(n, op)
    for n, op in (("remove", "remove"), ("unlink", "remove"), ("truncate", "truncate"),
                  ("ftruncate", "truncate"), ("fsync", "fsync"), ("fdatasync", "fsync"), ("write", "write")):
        _wrap1(n, op)
    _wrap_read()
    _wrap_osopen()
    mmap.mmap = SimMmap
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_fastcopy_sendfile"):
        pass
    _datetime_mod.datetime = SimDatetime
    _datetime_mod.date = SimDate
    _wrap_time()
    core.install_locks()
    core.install_monitoring()
    os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
    for k in ("http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(k, None)


def scrub(root):
    shutil.rmtree(root, ignore_errors=True)
