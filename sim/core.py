"""Deterministic scheduler: real threads, parked and released one at a time.

* Exactly one simulated thread runs at any moment; who runs next is decided only
  by the plan (a list of stops), never by the OS.
* Control points are the line (or opcode) events of code that lives in /repo's
  package, seen through sys.monitoring, plus the I/O events of the simulated world
  and the simulated locks.
* A stop names (thread, op, function, n-th event in it) and an action: switch to
  another thread, or raise an exception there (abort).
"""
import _thread
import ast
import os
import sys
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "refextract") + os.sep

SCHED = None  # the active scheduler, if any


class SimAbort(Exception):
    """An asynchronous timeout/cancellation delivered into the running call."""


class SimAbortBase(BaseException):
    """The same, not an Exception (like a task cancellation)."""


class SimFault(Exception):
    """An unforeseen failure inside the library."""


EXCS = {
    "timeout": SimAbort, "cancel": SimAbortBase, "interrupt": KeyboardInterrupt,
    "memory": MemoryError, "fault": SimFault, "recursion": RecursionError,
    "oserror": OSError, "runtime": RuntimeError, "value": ValueError, "unicode": ValueError,
}


class Stuck(BaseException):
    """Raised (and reported) when nothing can run any more."""


# --------------------------------------------------------------------------
# Lines at which an asynchronous exception is not injected: statement headers
# whose clean-up CPython itself cannot protect (with/try), and clean-up bodies.
_excl = {}


def excluded_lines(filename):
    s = _excl.get(filename)
    if s is not None:
        return s
    s = set()
    try:
        with REAL_OPEN(filename, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
    except Exception:
        tree = None
    if tree is not None:
        for node in ast.walk(tree):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                first = node.body[0].lineno
                s.update(range(node.lineno, first))
                s.add(node.lineno)
            elif isinstance(node, ast.Try):
                s.add(node.lineno)
                for h in node.handlers:
                    s.update(range(h.lineno, (h.end_lineno or h.lineno) + 1))
                for b in node.finalbody:
                    s.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
            elif isinstance(node, ast.Call):
                f = node.func
                name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if name in ("acquire", "release", "__enter__", "__exit__"):
                    s.add(node.lineno)
                    s.add((node.end_lineno or node.lineno) + 1)
    _excl[filename] = s
    return s


REAL_OPEN = open
REAL_SLEEP = time.sleep

_keys = {}


def code_key(code):
    """'references/kbs.py:get_kbs' for package code, None for anything else."""
    k = _keys.get(code, 0)
    if k == 0:
        fn = code.co_filename
        k = fn[len(PKG):] + ":" + code.co_qualname if fn.startswith(PKG) else None
        _keys[code] = k
    return k


TOOL = 4
EXTRA_MODULES = []   # further instances of the package (other simulated processes)


def package_code():
    """{key: [code objects]} of everything the loaded package can run."""
    import types
    out = {}
    seen = set()
    todo = []

    def add(code):
        if code in seen or not code.co_filename.startswith(PKG):
            return
        seen.add(code)
        if code.co_name != "<module>":
            out.setdefault(code_key(code), []).append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    objs = set()

    def walk(o, depth=0):
        if id(o) in objs or depth > 6:
            return
        objs.add(id(o))
        if isinstance(o, (staticmethod, classmethod, types.MethodType)):
            walk(o.__func__, depth + 1)
        elif isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    walk(f, depth + 1)
        elif isinstance(o, types.FunctionType):
            add(o.__code__)
            for c in o.__closure__ or ():
                try:
                    walk(c.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif isinstance(o, type):
            if (getattr(o, "__module__", "") or "").startswith("refextract"):
                for v in list(vars(o).values()):
                    walk(v, depth + 1)
        elif isinstance(o, (dict, list, tuple)) and len(o) < 200:
            for v in list(o.values()) if isinstance(o, dict) else list(o):
                if callable(v):
                    walk(v, depth + 1)
        w = getattr(o, "__wrapped__", None) if callable(o) else None
        if w is not None:
            walk(w, depth + 1)
        f = getattr(o, "func", None) if callable(o) and not isinstance(o, type) else None
        if isinstance(f, types.FunctionType):
            walk(f, depth + 1)

    mods = [m for name, m in sorted(sys.modules.items())
            if (name == "refextract" or name.startswith("refextract.")) and m is not None]
    for m in mods + EXTRA_MODULES:
        for v in list(vars(m).values()):
            walk(v)
    return out


def shared_state_functions():
    """Keys of package functions that reach state shared between calls: module-level
    mutable objects and rebound globals, mutable defaults, caches, function attributes.

    Only used to decide where context switches and aborts are tried more often."""
    import collections
    import dis
    import functools
    import types
    out = set()
    mutable = (dict, list, set, bytearray, collections.deque, types.GeneratorType, SimLock, threading.Event,
               threading.Condition, threading.Semaphore, threading.local)

    def is_shared(v, depth=0):
        if isinstance(v, mutable):
            return True
        if isinstance(v, functools._lru_cache_wrapper):
            return True
        if isinstance(v, types.FunctionType):
            return bool(v.__dict__) and "__wrapped__" not in v.__dict__
        if isinstance(v, type):
            return (v.__module__ or "").startswith("refextract") and any(isinstance(x, mutable) for x in vars(v).values())
        t = type(v)
        return (getattr(t, "__module__", "") or "").startswith("refextract") or t.__module__ in ("itertools", "queue", "weakref")

    def scan(code, g, ns):
        hit = False
        for ins in dis.get_instructions(code):
            if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                hit = True
            elif ins.opname == "LOAD_GLOBAL" and ins.argval in g and is_shared(g[ins.argval]):
                hit = True
        for n in code.co_freevars:
            if n in ns and is_shared(ns[n]):
                hit = True
        if hit:
            out.add(code_key(code))
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                scan(c, g, {})

    def func(f):
        while True:
            w = getattr(f, "__wrapped__", None)
            if isinstance(f, functools._lru_cache_wrapper) and isinstance(w, types.FunctionType):
                out.add(code_key(w.__code__))
            if not callable(w):
                break
            f = w
        if not isinstance(f, types.FunctionType) or not f.__code__.co_filename.startswith(PKG):
            return
        ns = {}
        for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                ns[n] = c.cell_contents
            except ValueError:
                pass
        scan(f.__code__, f.__globals__, ns)
        if any(is_shared(d) for d in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values())):
            out.add(code_key(f.__code__))

    for name, m in sorted(sys.modules.items()):
        if (name == "refextract" or name.startswith("refextract.")) and m is not None:
            for v in list(vars(m).values()):
                if isinstance(v, type) and (v.__module__ or "").startswith("refextract"):
                    for x in list(vars(v).values()):
                        func(getattr(x, "__func__", x))
                elif callable(v):
                    func(v)
    out.discard(None)
    return out


def _on_line(code, line):
    s = SCHED
    if s is None:
        return
    th = s.ident.get(_thread.get_ident())
    if th is None:
        return
    s.line_event(th, code_key(code), code, line)


def _on_instruction(code, offset):
    s = SCHED
    if s is None:
        return
    th = s.ident.get(_thread.get_ident())
    if th is None:
        return
    s.opcode_event(th, code_key(code), code)


def install_monitoring():
    M = sys.monitoring
    M.use_tool_id(TOOL, "vsim")
    M.register_callback(TOOL, M.events.LINE, _on_line)
    M.register_callback(TOOL, M.events.INSTRUCTION, _on_instruction)


class SimThread:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.state = "ready"  # ready | blocked | done
        self.wake = _thread.allocate_lock()
        self.wake.acquire()
        self.waiting_for = None
        self.timeout = None
        self.timed_out = False
        self.op = -1
        self.counts = {}
        self.ocounts = {}
        self.stops = {}     # (op, fn, 'l'/'o') -> sorted list of [n, stop]
        self.iostops = {}   # n -> stop
        self.every = None
        self.every_left = 0
        self.ionum = 0
        self.nlines = 0
        self.lib = False    # started by the code under test


class Sched:
    """Runs thread bodies one at a time following a list of stops."""

    def __init__(self, log=None, max_switches=8000, profile=None):
        self.threads = []
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.log = log if log is not None else []
        self.fired = []
        self.switches = 0
        self.max_switches = max_switches
        self.stuck = None
        self.profile = profile     # dict fn -> count of line events, if profiling
        self.firsts = {}           # fn -> {line: index of its first event}
        self.entry = {}            # fn -> its first line
        self.call1 = {}            # fn -> events before that line came again (about one invocation)
        self.armed = None          # predicate(frame) restricting raise-stops
        self.ident = {}
        self.interleaving = []
        self.failure = None
        self.implicit = False      # made because the code under test started a thread
        self.lib_armed = False

    def first_hits(self):
        return {k: sorted(v.values()) for k, v in self.firsts.items()}

    # -- setup ------------------------------------------------------------
    def spawn(self, fn):
        th = SimThread(len(self.threads), fn)
        self.threads.append(th)
        return th

    def load_stops(self, stops):
        for i, st in enumerate(stops):
            st = dict(st, i=i)
            if st["t"] >= len(self.threads):
                continue
            th = self.threads[st["t"]]
            if st.get("every"):
                th.every = st
                th.every_left = st["every"]
            elif "io" in st:
                th.iostops[st["io"]] = st
            else:
                g = st.get("g", "l")
                th.stops.setdefault((st["o"], st["fn"], g), []).append([st["n"], st])
        for th in self.threads:
            for v in th.stops.values():
                v.sort(key=lambda x: x[0])

    # -- running ----------------------------------------------------------
    def run(self, first=0):
        global SCHED
        SCHED = self
        self.arm()
        try:
            for th in self.threads:
                _thread.start_new_thread(self._body, (th,))
            th = self.threads[first % len(self.threads)]
            self.cur = th
            th.wake.release()
            self.main.acquire()
        finally:
            SCHED = None
        if self.failure:
            raise RuntimeError("harness failure in a simulated thread\n" + self.failure)
        return self.stuck is None

    def _body(self, th):
        th.wake.acquire()
        self.ident[_thread.get_ident()] = th
        try:
            th.fn(th)
        except Stuck:
            pass
        except BaseException:
            import traceback
            self.failure = traceback.format_exc()
        finally:
            th.state = "done"
            self._leave(th)

    # -- threads the code under test starts ---------------------------------
    def adopt(self, parent, fn, args):
        """A thread started inside a simulated one: scheduled like any other."""
        th = SimThread(len(self.threads), None)
        th.lib = True
        th.every = parent.every
        if LIB_EVERY and th.every is None:
            th.every = {"every": LIB_EVERY, "i": -1}
            parent.every = parent.every or th.every
            if not self.lib_armed:
                self.lib_armed = True
                self.arm()
        th.every_left = th.every["every"] if th.every else 0
        self.threads.append(th)
        self.log.append(f"new {parent.tid}>{th.tid}")
        _thread.start_new_thread(self._adopted, (th, fn, args))
        return th

    def _adopted(self, th, fn, args):
        th.wake.acquire()
        self.ident[_thread.get_ident()] = th
        try:
            fn(*args)
        except BaseException:
            pass
        finally:
            th.state = "done"
            self.unblock_waiters(th)
            self._leave(th)

    def _leave(self, th):
        if self.stuck:
            return
        if not self.implicit and all(t.state == "done" for t in self.threads if not t.lib):
            self.main.release()
            return
        nxt = self._pick(th)
        if nxt is None:
            if any(t.state != "done" for t in self.threads):
                self._report_stuck()
                return
            self.main.release()
            return
        self.cur = nxt
        nxt.wake.release()

    def _report_stuck(self):
        self.stuck = [(t.tid, t.op, repr(t.waiting_for)) for t in self.threads if t.state == "blocked"]
        if self.implicit and STUCK_HOOK is not None:
            STUCK_HOOK("every thread waits for another one")
        self.main.release()

    def _pick(self, th, prefer=None):
        n = len(self.threads)
        if prefer is not None:
            t = self.threads[prefer % n]
            if t is not th and t.state == "ready":
                return t
        for d in range(1, n + 1):
            t = self.threads[(th.tid + d) % n]
            if t.state == "ready" and t is not th:
                return t
        for d in range(1, n + 1):
            t = self.threads[(th.tid + d) % n]
            if t.state == "blocked" and t.timeout is not None:
                t.state = "ready"
                t.timed_out = True
                return t
        return None

    def switch(self, th, to=None, why=""):
        """Park `th`, run another ready thread; returns when th is scheduled again."""
        self.switches += 1
        if self.switches > self.max_switches:
            return
        nxt = self._pick(th, to)
        if nxt is None or nxt is th:
            return
        self.interleaving.append((th.tid, nxt.tid, why))
        self.log.append(f"sw {th.tid}>{nxt.tid} {why}")
        self.cur = nxt
        nxt.wake.release()
        th.wake.acquire()

    def block(self, th, on, timeout=None):
        """Block the running thread until wakened by unblock(). False on timeout."""
        th.state = "blocked"
        th.waiting_for = on
        th.timeout = timeout
        th.timed_out = False
        self.log.append(f"blk {th.tid}")
        nxt = self._pick(th)
        if nxt is None:
            if timeout is not None:
                th.state = "ready"
                th.waiting_for = None
                return False
            self._report_stuck()
            th.wake.acquire()  # for ever; the child process is about to end
            raise Stuck()
        if nxt is not th:
            self.interleaving.append((th.tid, nxt.tid, "block"))
            self.cur = nxt
            nxt.wake.release()
            th.wake.acquire()
        th.waiting_for = None
        return not th.timed_out

    def unblock_waiters(self, on):
        for t in self.threads:
            if t.state == "blocked" and t.waiting_for is on:
                t.state = "ready"

    def current(self):
        return self.ident.get(_thread.get_ident())

    # -- control points ---------------------------------------------------
    def begin_op(self, th, op):
        th.op = op
        th.counts = {}
        th.ocounts = {}

    def io_point(self, what):
        th = self.current()
        if th is None:
            return
        n = th.ionum
        th.ionum = n + 1
        st = th.iostops.get(n)
        if st is not None:
            self.fired.append(st["i"])
            self.switch(th, st.get("to"), "io:" + what)

    def line_event(self, th, key, code, line):
        counts = th.counts
        n = counts.get(key, 0)
        counts[key] = n + 1
        if self.profile is not None:
            self.profile[key] = n + 1
            f = self.firsts.setdefault(key, {})
            if line not in f:
                if not f:
                    self.entry[key] = line
                f[line] = n
            elif line == self.entry[key] and key not in self.call1:
                self.call1[key] = n
        lst = th.stops.get((th.op, key, "l"))
        if lst and lst[0][0] <= n:
            self._stop(th, lst, code, line, key, n)
        ev = th.every
        if ev is not None and n < 1500 and self.switches <= self.max_switches:
            if ev.get("in") and not key.startswith(ev["in"]):
                return
            th.every_left -= 1
            if th.every_left <= 0:
                th.every_left = ev["every"]
                if ev["i"] >= 0:
                    self.fired.append(ev["i"])
                self.switch(th, None, "ev")

    def opcode_event(self, th, key, code):
        lst = th.stops.get((th.op, key, "o"))
        if not lst:
            return
        n = th.ocounts.get(key, 0)
        th.ocounts[key] = n + 1
        if lst[0][0] <= n:
            self._stop(th, lst, code, 0, key, n)

    def arm(self):
        """Ask the interpreter for events of exactly the code the plan needs."""
        lines, opcodes, prefixes = set(), set(), set()
        for th in self.threads:
            for (_, fn, g) in th.stops:
                (opcodes if g == "o" else lines).add(fn)
            if th.every is not None:
                prefixes.add(th.every.get("in") or "")
        if self.lib_armed:
            prefixes.add("")
        M = sys.monitoring
        for key, codes in package_code().items():
            ev = 0
            if self.profile is not None or key in lines or any(key.startswith(p) for p in prefixes):
                ev |= M.events.LINE
            if key in opcodes:
                ev |= M.events.INSTRUCTION
            for c in codes:
                M.set_local_events(TOOL, c, ev)

    def _stop(self, th, lst, code, line, key, n):
        st = lst[0][1]
        act = st.get("act", "switch")
        if act == "raise":
            if line in excluded_lines(code.co_filename):
                return  # deferred to the next admissible line
            if self.armed is not None and not self.armed(sys._getframe(3)):
                return
            lst.pop(0)
            self.fired.append(st["i"])
            self.log.append(f"raise {th.tid} {key} {n} {st['exc']}")
            raise make_exc(st["exc"])
        lst.pop(0)
        self.fired.append(st["i"])
        self.switch(th, st.get("to"), key)


def make_exc(name):
    cls = EXCS[name]
    if cls is OSError:
        import errno
        return OSError(errno.EIO, "simulated")
    return cls("simulated " + name)


# --------------------------------------------------------------------------
# Locks
class SimLock:
    """threading.Lock / RLock whose blocking is decided by the scheduler.

    With no scheduler active it is an ordinary lock of the (single) main thread.
    """
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner is None:
            self.owner, self.count = me, 1
            return True
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        if not blocking:
            return False
        s = SCHED
        th = s.current() if s is not None else None
        if th is None:
            if timeout is not None and timeout >= 0:
                return False
            if len(sys._current_frames()) > 1 and s is None:
                return self._real_wait(me)
            note_stuck("lock held for ever by an earlier call of the same thread")
        while self.owner is not None:
            ok = s.block(th, self, None if timeout is None or timeout < 0 else timeout)
            if not ok and self.owner is not None:
                return False
        self.owner, self.count = me, 1
        return True

    def _real_wait(self, me):
        """Threads the code itself started: plain waiting, bounded."""
        for _ in range(20000):
            REAL_SLEEP(0.001)
            if self.owner is None:
                self.owner, self.count = me, 1
                return True
        note_stuck("lock never released")

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
            s = SCHED
            if s is not None:
                s.unblock_waiters(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        if SCHED is not None:
            SCHED.unblock_waiters(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[1]


STUCK_HOOK = None


def note_stuck(msg):
    if STUCK_HOOK is not None:
        STUCK_HOOK(msg)
    raise Stuck(msg)


# --------------------------------------------------------------------------
# Threads started by the code under test
LIB_EVERY = None       # switch such threads (and their parents) every so many lines
_real_start = _thread.start_new_thread
_real_join = threading.Thread.join
_real_alive = threading.Thread.is_alive


def _sim_start(fn, args=(), kwargs=None):
    global SCHED
    s = SCHED
    if s is None and STUCK_HOOK is not None:
        # inside a run without other threads: the caller becomes thread 0
        s = Sched()
        s.implicit = True
        th = SimThread(0, None)
        th.op = 0
        s.threads.append(th)
        s.ident[_thread.get_ident()] = th
        SCHED = s
    th = s.current() if s is not None else None
    if th is None:
        return _real_start(fn, args, kwargs or {})
    child = s.adopt(th, fn, args)
    if isinstance(getattr(fn, "__self__", None), threading.Thread):
        fn.__self__._vsim = child
    return child.tid


def _sim_join(self, timeout=None):
    s = SCHED
    me = s.current() if s is not None else None
    child = getattr(self, "_vsim", None)
    if me is not None and child is not None:
        while child.state != "done":
            if not s.block(me, child, timeout) and child.state != "done":
                return
    _real_join(self, timeout)


def _sim_alive(self):
    child = getattr(self, "_vsim", None)
    if child is not None:
        return child.state != "done"
    return _real_alive(self)


def install_locks():
    import concurrent.futures.thread as cft
    import queue
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock
    queue.SimpleQueue = queue._PySimpleQueue
    if not isinstance(cft._global_shutdown_lock, SimLock):
        cft._global_shutdown_lock = SimLock()
    threading._start_new_thread = _sim_start
    threading.Thread.join = _sim_join
    threading.Thread.is_alive = _sim_alive
