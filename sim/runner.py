"""Zygote, workers, oracle, minimiser, evidence."""
import collections
import gc
import json
import os
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import core, ops, world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = core.REPO
MARK = "RESULT:"


class HarnessError(Exception):
    pass


# -------------------------------------------------------------------- zygote
def _silence_logging():
    import logging
    logging.disable(logging.CRITICAL)


def boot(warm=True):
    """Import everything behind the seams; leave the package freshly imported.

    Compiled patterns survive in re's cache, so a fork of this process behaves
    like a fresh process but starts quickly.
    """
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    _silence_logging()
    # third-party and stdlib modules first, with the real standard library
    import csv, datetime, email, encodings.idna, http.client, logging, mmap, queue, subprocess, tempfile  # noqa
    import magic, pypdf, requests, unidecode  # noqa
    import inspire_utils.dedupers  # noqa
    try:
        import pkg_resources  # noqa
    except Exception:
        pass
    magic.from_buffer(b"%PDF-1.4\n", mime=True)
    magic.from_buffer(b"plain text\n", mime=True)
    world.install()
    re._MAXCACHE = 10 ** 7
    if hasattr(re, "_MAXCACHE2"):
        pass
    import refextract  # noqa
    import refextract.extract  # noqa
    if not os.path.realpath(refextract.__file__).startswith(os.path.realpath(core.PKG)):
        raise HarnessError("refextract imported from %s" % refextract.__file__)
    if warm:
        from . import corpus
        tmp = tempfile.mkdtemp(prefix="vsimwarm")
        try:
            w = world.World(tmp)
            w.setup()
            env = ops.Env(w)
            src = "\n".join(corpus.SYNTH)
            ops.run_op({"k": "string", "src": src}, env)
            for v in range(corpus.NVAR):
                ops.run_op({"k": "string", "src": src, "kbs": {t: ["list", v] for t in corpus.KB_TYPES}}, env)
            # a second instance of the package that has been in use for a while
            reimport()
            ops.run_op({"k": "string", "src": src}, env)
            ops.run_op({"k": "journal", "line": corpus.strip_marker(corpus.SYNTH[1])}, env)
            WARM.update((n, m) for n, m in sys.modules.items() if n == "refextract" or n.startswith("refextract."))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        reimport()
    gc.collect()
    gc.freeze()


WARM = {}     # modules of an instance that has already served calls (with the default KBs)


def use_warm():
    sys.modules.update(WARM)


def reimport():
    for m in [m for m in sys.modules if m == "refextract" or m.startswith("refextract.")]:
        del sys.modules[m]
    core._keys.clear()
    import refextract  # noqa
    import refextract.extract  # noqa


# -------------------------------------------------------------------- child
def in_child(fn, timeout=60.0):
    """Run fn() in a forked child; returns (status, value).

    status: ok | hang | died:<n> | stuck | error
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)

            def send(status, val):
                data = json.dumps([status, val], default=ops._default).encode()
                view = memoryview(data)
                while view:
                    n = world.real["os.write"](w, view) if "os.write" in world.real else os.write(w, view)
                    view = view[n:]

            def stuck(msg):
                send("stuck", msg)
                os._exit(0)

            core.STUCK_HOOK = stuck
            try:
                val = fn()
                send("ok", val)
            except core.Stuck as e:
                send("stuck", str(e))
            except BaseException:
                world.W = None
                send("error", traceback.format_exc()[-4000:])
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    buf = bytearray()
    end = time.monotonic() + timeout
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if hang:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if hang:
        return "hang", None
    if not buf:
        return "died:%s" % (os.WTERMSIG(st) if os.WIFSIGNALED(st) else "x%d" % os.WEXITSTATUS(st)), None
    try:
        status, val = json.loads(bytes(buf))
    except ValueError:
        return "died:partial", None
    return status, val


# -------------------------------------------------------------------- context
class Ctx:
    """What a property needs from the worker: oracle runs and profiles."""

    def __init__(self, session, wid):
        self.session = session
        self.wid = wid
        self.root = os.path.join(session, "w%d" % wid)
        self.memo = os.path.join(session, "conv")
        self.odir = os.path.join(session, "oracle")
        for d in (self.root, self.memo, self.odir):
            os.makedirs(d, exist_ok=True)
        self.cache = {}
        self.noracle = 0
        self.warm = False     # the current run starts in a process that has already served calls
        self.warm_oracle = False
        self._hot = None

    def hot(self):
        """Functions that reach state shared between calls (see core)."""
        if self._hot is None:
            self._hot = core.shared_state_functions()
        return self._hot

    def scratch(self, sub="run"):
        p = os.path.join(self.root, sub)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def world(self, sub="run", **kw):
        w = world.World(self.scratch(sub), memo=self.memo, **kw)
        w.setup()
        os.chdir(w.root)      # (in a child) relative paths are relative to the scratch directory
        if self.warm and sub == "run":
            use_warm()
        return w

    def pristine(self, op, profile=False, key_extra="", fn=None, timeout=120):
        """Outcome of one op alone in a fresh process: {"out":..., "prof":..., "io":...}."""
        warm = fn is None and bool((profile and self.warm) or self.warm_oracle)
        key = ops.sha(ops.canon([op, bool(profile), key_extra] + ["warm"] * warm))
        v = self.cache.get(key)
        if v is not None:
            return v
        p = os.path.join(self.odir, key)
        try:
            with open(p) as fh:
                v = json.load(fh)
            self.cache[key] = v
            return v
        except (OSError, ValueError):
            pass

        def body():
            core.LIB_EVERY = None
            w = self.world("oracle")
            if warm:
                use_warm()
            w.activate()
            env = ops.Env(w)
            if fn is not None:
                return fn(op, w, env)
            ll = []
            prof = first = call1 = None
            if profile:
                prof = {}
                s = core.Sched(profile=prof)
                res = {}

                def go(th):
                    s.begin_op(th, 0)
                    res["out"] = ops.run_op(op, env, ll)
                s.spawn(go)
                s.run()
                out = res["out"]
                first, call1 = s.first_hits(), s.call1
            else:
                out = ops.run_op(op, env, ll)
            return {"out": out, "prof": prof, "first": first, "call1": call1, "io": dict(w.counts), "links": ll, "nconv": w.nconv}

        self.noracle += 1
        st, v = in_child(body, timeout)
        if st != "ok":
            v = {"out": {"err": "#" + st, "msg": str(v)[-300:]}, "prof": {}, "first": {}, "call1": {}, "io": {}, "links": [], "nconv": 0}
            if st == "error":
                raise HarnessError("oracle run failed: %s" % v["out"]["msg"])
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as fh:
            json.dump(v, fh)
        os.replace(tmp, p)
        self.cache[key] = v
        if len(self.cache) > 5000:
            self.cache.clear()
        return v


def rng_for(seed, prop, i):
    return random.Random("%s/%s/%s" % (seed, prop, i))


def sample_stop(rng, run, thread, op, act="switch", bias=0.5, exclude=(), hot=(), only=None):
    """Pick a function (stratified) and an event index inside it.

    run: a profiled oracle run; hot: functions to try more often."""
    prof, first = run["prof"], run["first"]
    fns = sorted(f for f in prof if f not in exclude and (only is None or f in only or f.split(":")[0] in only))
    if not fns:
        return None
    h = [f for f in fns if f in hot]
    is_hot = h and rng.random() < 0.35
    if is_hot:
        fn = rng.choice(h)
    elif rng.random() < bias:
        fn = rng.choice(fns)
    else:
        tot = sum(prof[f] for f in fns)
        x = rng.randrange(tot)
        for fn in fns:
            x -= prof[fn]
            if x < 0:
                break
    n = prof[fn]
    k = rng.random()
    if k < (0.45 if is_hot else 0.15):
        # anywhere in the first invocation
        i = rng.randrange(max(1, min(n, run["call1"].get(fn, n))))
    elif k < (0.75 if is_hot else 0.4) and first.get(fn):
        # the first time a line is reached, or shortly after
        i = rng.choice(first[fn])
        while rng.random() < 0.45:
            i += 1
        i = min(i, n - 1)
    elif k < 0.55 and not is_hot:
        i = rng.randrange(min(n, 12))
    elif k < 0.7 or (is_hot and k < 0.85):
        i = rng.randrange(min(n, 90))
    else:
        i = rng.randrange(n)
    return {"t": thread, "o": op, "fn": fn, "n": i, "act": act}


# -------------------------------------------------------------------- runs
def one(prop, plan, ctx):
    """Execute a plan and judge it. Returns dict(viol=[...], hist=..., stats=...)."""
    ctx.warm = bool(plan.get("warm"))
    ctx.warm_oracle = prop.warm_oracle
    core.LIB_EVERY = plan.get("lib")
    hist = prop.execute(plan, ctx)
    core.LIB_EVERY = None
    viol = prop.judge(plan, hist, ctx)
    return hist, viol


def minimise(prop, plan, cls, ctx, budget=60.0, maxtry=400):
    end = time.monotonic() + budget
    tries = 0
    cur = plan
    changed = True
    while changed and time.monotonic() < end and tries < maxtry:
        changed = False
        for cand in prop.reductions(cur):
            if time.monotonic() > end or tries >= maxtry:
                break
            tries += 1
            try:
                _, v = one(prop, cand, ctx)
            except HarnessError:
                continue
            except Exception:
                continue
            if any(x["cls"] == cls for x in v):
                cur = cand
                changed = True
                break
    return cur, tries


def worker(prop, cfg, wid, idxs, session, wfd, deadline):
    ctx = Ctx(session, wid)
    rng = None
    for i in idxs:
        if time.monotonic() > deadline:
            break
        msg = {"i": i}
        try:
            ctx.warm = bool(prop.warmable and rng_for(cfg["seed"], prop.id + "/warm", i).random() < prop.warmable)
            ctx.warm_oracle = prop.warm_oracle
            plan = prop.generate(rng_for(cfg["seed"], prop.id, i), ctx, i, cfg)
            if ctx.warm:
                plan["warm"] = True
            lr = rng_for(cfg["seed"], prop.id + "/lib", i)
            if lr.random() < 0.5:       # only matters if the library starts threads
                plan["lib"] = lr.choice((3, 10, 40, 150, 600))
            hist, viol = one(prop, plan, ctx)
            if viol and any(x["cls"] in ("hang", "died") for x in viol):
                hist, viol = one(prop, plan, ctx)   # confirm
            msg["viol"] = viol
            msg["stats"] = prop.stats(plan, hist)
            msg["digest"] = ops.sha(ops.canon(hist.get("log", [])))[:16] if hist.get("log") is not None else None
            if viol or i < 2:
                msg["plan"] = plan
            if cfg.get("recheck") and i % cfg["recheck"] == 0:
                h2, _ = one(prop, plan, ctx)
                d2 = ops.sha(ops.canon(h2.get("log", [])))[:16]
                msg["redet"] = d2 == msg["digest"]
            if cfg.get("digests"):
                msg["plandig"] = ops.sha(ops.canon(plan))[:16]
        except Exception:
            msg["error"] = traceback.format_exc()[-3000:]
        msg["noracle"] = ctx.noracle
        data = (json.dumps(msg, default=ops._default) + "\n").encode()
        while data:
            data = data[os.write(wfd, data):]
        if msg.get("viol") and not cfg.get("keepgoing"):
            break


def run_batch(prop, cfg, n, session, nworkers, deadline, on_msg):
    """Fan runs 0..n-1 out over forked workers; returns when done or on violation."""
    fds = {}
    for wid in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for rr in fds:
                    os.close(rr)
                worker(prop, cfg, wid, range(wid, n, nworkers), session, w, deadline)
            except BaseException:
                traceback.print_exc()
                code = 98
            finally:
                os._exit(code)
        os.close(w)
        fds[r] = [pid, bytearray(), wid]
    stop = False
    hard = deadline + 180
    while fds and not stop:
        rl, _, _ = select.select(list(fds), [], [], 5)
        if time.monotonic() > hard:
            break
        for r in rl:
            b = os.read(r, 1 << 16)
            ent = fds[r]
            if not b:
                os.close(r)
                _, st = os.waitpid(ent[0], 0)
                del fds[r]
                if st != 0:
                    on_msg({"error": "worker %d ended with status %d" % (ent[2], st)})
                continue
            ent[1] += b
            while b"\n" in ent[1]:
                line, _, rest = bytes(ent[1]).partition(b"\n")
                ent[1] = bytearray(rest)
                if on_msg(json.loads(line)):
                    stop = True
    for r, ent in fds.items():
        try:
            os.kill(ent[0], signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(ent[0], 0)
        os.close(r)


def merge_counts(dst, src):
    for k, v in (src or {}).items():
        dst[k] += v
