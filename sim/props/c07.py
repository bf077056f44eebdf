import base64
import json
import os
import random
import sys

from .. import core, ops, pool, runner, steps, world
from ..prop import Prop, bad_status
from .c04 import KB
from .c06 import SCATTERED

SECTOR = 512


def markers(b):
    s = b.find(b"%PDF-")
    e = b.rfind(b"%%EOF")
    return s, (e + 5 if e > s >= 0 else -1)


def allowed(orig, now):
    """Original bytes, or the complete document with only outer junk (or part of it) removed."""
    if now == orig:
        return True
    s, e = markers(orig)
    if s < 0 or not now:
        return False
    if e < 0:
        e = len(orig)
    if is_text(orig):
        return False
    k = orig.find(now)
    while k != -1 and k <= s:
        if k + len(now) >= e:
            return True
        k = orig.find(now, k + 1)
    return False


def is_text(b):
    """Plain text that merely mentions the marker."""
    s = b.find(b"%PDF-")
    return s > 0 and b"\n1 0 obj" not in b and b"/Catalog" not in b


class Tracker:
    """Follows the document directory through every mutation; models what survives a power loss."""

    def __init__(self, w, rel, orig):
        self.w, self.orig = w, orig
        self.dir = w.path("doc")
        self.rel = rel
        self.bad = []
        names = self.listing()
        self.dirs = [names]
        self.cur = {ino: self.read(n) for n, ino in names.items()}
        self.dur = dict(self.cur)

    def read(self, name):
        try:
            with world.real["open"](os.path.join(self.dir, name), "rb") as fh:
                return fh.read()
        except OSError:
            return b""

    def listing(self):
        return {n: os.lstat(os.path.join(self.dir, n)).st_ino for n in sorted(os.listdir(self.dir))
                if not os.path.islink(os.path.join(self.dir, n))}

    def mutated(self, k, what, rel):
        if not rel.startswith("doc"):
            return
        names = self.listing()
        known = set(self.dirs[-1].values())
        for n, ino in names.items():
            if ino not in known:
                self.dur[ino] = b""
            self.cur[ino] = self.read(n)
        if names != self.dirs[-1] or what in ("rename", "truncate", "creat", "remove", "mresize"):
            self.dirs.append(names)
        self.check(k, what, rel)

    def synced(self, p):
        ino = os.fstat(p).st_ino if isinstance(p, int) else os.stat(p).st_ino
        if ino in self.cur:
            for n, i in self.listing().items():
                if i == ino:
                    self.cur[ino] = self.read(n)
            self.dur[ino] = self.cur[ino]

    def check(self, k, what, rel):
        p = os.path.join(self.dir, self.rel)
        if not os.path.exists(p):
            self.bad.append("after mutation %s (%s of %s) the document does not exist" % (k, what, rel))
            return
        if not allowed(self.orig, self.read(self.rel)):
            self.bad.append("after mutation %s (%s of %s) the document holds neither its original nor its stripped bytes" % (k, what, rel))

    def dump(self):
        b = lambda d: {str(i): base64.b64encode(v).decode() for i, v in d.items()}  # noqa
        return {"dirs": self.dirs, "cur": b(self.cur), "dur": b(self.dur), "bad": self.bad[:4]}


def power_loss(path, dump, seed, mode):
    """Rewrite the document directory as a power loss may have left it."""
    rng = random.Random("pl%s" % seed)
    dirs = dump["dirs"]
    names = dirs[-1] if mode != "dirs" or len(dirs) == 1 else dirs[rng.randrange(len(dirs))]
    d = os.path.join(path, "doc")
    new = {}
    for n, ino in names.items():
        cur = base64.b64decode(dump["cur"][str(ino)])
        dur = base64.b64decode(dump["dur"][str(ino)])
        if cur == dur:
            new[n] = cur
            continue
        k = rng.random()
        if dur.startswith(cur):          # a mere truncation: reached the disk or not
            k = rng.choice((0.1, 0.4))
        if k < 0.35:
            new[n] = dur
        elif k < 0.5:
            new[n] = cur
        else:
            size = len(cur) if rng.random() < 0.6 else len(dur)
            out = bytearray()
            for o in range(0, size, SECTOR):
                src = cur if rng.random() < 0.5 else dur
                c = src[o:o + SECTOR]
                out += c + b"\0" * (min(SECTOR, size - o) - len(c))
            new[n] = bytes(out[:size])
    for n in os.listdir(d):
        if not os.path.islink(os.path.join(d, n)):
            os.remove(os.path.join(d, n))
    for n, b in new.items():
        with open(os.path.join(d, n), "wb") as fh:
            fh.write(b)


def make_doc(rng):
    r = rng.random()
    if r < 0.72:
        d = {"t": "pdf", "seed": rng.randrange(10), "nrefs": rng.choice((2, 4)), "single": 1}
        if rng.random() < 0.3:
            d["keys"] = 1
            d["nurls"] = 2
        if rng.random() < 0.65:
            d["lead"] = rng.choice((1, 2, 3, 4, 5, 20, 511, 512, 600))
            if rng.random() < 0.3:
                d["leadnl"] = 1
        if rng.random() < 0.45:
            d["trail"] = rng.choice((1, 5, 100, 600))
        elif rng.random() < 0.3:
            d["notrail"] = 1
        if rng.random() < 0.2:
            d["body"] = 120
        if rng.random() < 0.3:
            d["mangle"] = rng.choice(("noeof", "eof_first", "eof_only_first", "two_eof", "big_update", "big_update", "header_in_trail"))
        if rng.random() < 0.15 and "mangle" not in d:
            d.update(scattered=2, nrefs=2, seed=rng.choice(SCATTERED), body=3)
        return d
    if r < 0.92:
        d = {"t": "txt", "seed": rng.randrange(8), "nrefs": 3, "single": 1}
        if rng.random() < 0.8:
            d["mangle"] = rng.choice(("mention", "mention_first", "eof_mention"))
        else:
            d["uni"] = 1
        if rng.random() < 0.4:
            d["nl"] = rng.choice(("\r\n", "\r\n", "\r"))
        if rng.random() < 0.3:
            d["pages"] = 6
        if rng.random() < 0.3:
            d["noeol"] = 1
        return d
    if r < 0.96:
        return {"t": "bin", "seed": rng.randrange(4)}
    return {"t": "raw", "b64": ""}


class P(Prop):
    id = "C07"
    quick, thorough = 2000, 40000
    rule = ("a run = one document and 1-2 calls on it (sequential, or concurrent as threads of one process or as separate processes), with a "
            "crash before, inside or after a seeded file mutation, optionally followed by a power loss that drops or tears unsynced sectors and "
            "recent renames, or with I/O errors; the document bytes are checked after every mutation and after the crash, and extraction is "
            "repeated in a fresh process; non-trivial = a crash, power loss, I/O error or interleaving was injected and the file was touched or "
            "is not to be touched; distinct = distinct event logs")
    components = {"real": ["all refextract code", "pypdf", "libmagic", "pdftotext output", "scratch file system"],
                  "stub": ["crash and power-loss model of the disk", "I/O errors", "thread and process scheduling", "converter delivery"]}
    assumptions = ("power-loss model: data not fsynced may be lost or torn per 512-byte sector; directory operations reach the disk in order; "
                   "a truncation is atomic", "a plain-text file that contains both PDF markers in order is indistinguishable from a PDF and excluded",
                   "two simulated processes are two instances of the package in one interpreter sharing only the file system")

    def generate(self, rng, ctx, i, cfg):
        doc = make_doc(rng)
        ext = {"pdf": "pdf", "txt": "txt"}.get(doc["t"], "dat")
        plan = {"doc": doc, "name": "paper." + ext, "nthreads": 1, "stops": [], "faults": [], "crash": None, "power": None}
        r = rng.random()
        base = self.base(doc, ctx)
        nmut = base["nmut"]
        if r < 0.45:
            plan["crash"] = {"at": rng.randrange(nmut + 1), "mode": rng.choice(("before", "mid", "after")), "frac": rng.random()}
            if rng.random() < 0.5:
                plan["power"] = {"seed": rng.randrange(10 ** 6), "mode": rng.choice(("data", "data", "dirs"))}
        elif r < 0.55:
            plan["power"] = {"seed": rng.randrange(10 ** 6), "mode": rng.choice(("data", "data", "dirs"))}
        elif r < 0.75:
            plan["faults"] = steps.gen_faults(rng, base["counts"], rng.choice((1, 1, 2)), classes=("doc",))
        else:
            n = plan["nthreads"] = 2
            plan["inst"] = rng.random() < 0.6
            focus = base["iofns"]
            for _ in range(rng.choice((1, 2, 3, 5))):
                t = rng.randrange(n)
                st = runner.sample_stop(rng, base, t, 0, only=focus if focus and rng.random() < 0.7 else None)
                if st:
                    st["to"] = 1 - t
                    plan["stops"].append(st)
            for _ in range(rng.choice((0, 1, 2, 4))):
                plan["stops"].append({"t": rng.randrange(n), "io": rng.randrange(14), "to": rng.randrange(n)})
            if rng.random() < 0.3:
                plan["crash"] = {"at": rng.randrange(2 * nmut + 1), "mode": rng.choice(("before", "mid", "after")), "frac": rng.random()}
            plan["first"] = rng.randrange(n)
        if rng.random() < 0.3:
            plan["shorts"] = {"doc": rng.choice((1000, 1000, 300, 4000))}
        return plan

    def base(self, doc, ctx):
        def fn(op, w, env):
            prof = {}
            s = core.Sched(profile=prof)
            w.counts.clear()
            w.mut = 0

            def go(th):
                s.begin_op(th, 0)
                ops.run_op(op, env, [])
            env.doc(op["doc"])
            w.begin_step()
            w.iofns = set()
            s.spawn(go)
            s.run()
            return {"prof": prof, "first": s.first_hits(), "call1": s.call1, "iofns": sorted(w.iofns), "counts": dict(w.counts), "nmut": w.mut}
        return ctx.pristine({"k": "file", "doc": doc, "kbs": KB}, key_extra="c07", fn=fn)

    def execute(self, plan, ctx):
        orig = ops.doc_bytes(plan["doc"])
        root = os.path.join(ctx.root, "run")
        dumpf = os.path.join(ctx.root, "dump.json")
        if os.path.exists(dumpf):
            os.remove(dumpf)

        def body():
            log = []
            w = ctx.world("run", log=log)
            p = w.path("doc", plan["name"])
            with world.real["open"](p, "wb") as fh:
                fh.write(orig)
            target = p
            apis = [None, None]
            if plan.get("inst"):
                apis[1] = ops.api()
                core.EXTRA_MODULES[:] = [m for n, m in sorted(sys.modules.items()) if n.startswith("refextract")]
                runner.reimport()
            w.activate()
            env = ops.Env(w)
            kbs = [ops.kb_objects(KB, w.root) for _ in apis]
            w.begin_step(plan["faults"], shorts=plan.get("shorts"))
            w.fired.clear()
            w.mut = 0
            w.crash = plan["crash"]
            tr = w.tracker = Tracker(w, plan["name"], orig)
            outs = [None] * plan["nthreads"]
            sched = core.Sched(log=log)

            def save(extra):
                with world.real["open"](dumpf, "w") as fh:
                    json.dump({"track": tr.dump(), "log": log, "outs": outs, "fired": dict(w.fired), "nmut": w.mut,
                               "inter": ops.sha(repr(sched.interleaving))[:12] if sched.interleaving else None,
                               "stuck": sched.stuck, **extra}, fh)

            def die(c):
                save({"crashed": True})
                os._exit(77)

            w.crash_hook = die

            def mk(t):
                def go(th):
                    sched.begin_op(th, 0)
                    op = {"k": "file", "path": target, "kbs": KB}
                    outs[t] = ops.run_op(op, env, [], kbs=kbs[t], api_=apis[t])
                    log.append("out %d %s" % (t, ops.sha(ops.canon([outs[t].get("ok"), outs[t].get("err")]))[:12]))
                return go
            for t in range(plan["nthreads"]):
                sched.spawn(mk(t))
            sched.load_stops(plan["stops"])
            sched.run(plan.get("first", 0))
            w.tracker = None
            tr.check("end", "return", "")
            save({"crashed": False})
            return True

        st, val = runner.in_child(body, 90)
        if st == "error":
            raise runner.HarnessError(val)
        if st not in ("ok", "died:x77"):
            return {"status": st, "detail": val, "log": [st], "fired": {}}
        with open(dumpf) as fh:
            d = json.load(fh)
        h = {"status": "ok", "outs": d["outs"], "crashed": d["crashed"], "bad": d["track"]["bad"], "inter": d["inter"], "stuck": d["stuck"]}
        fired = d["fired"]
        if d["crashed"]:
            fired["crash." + plan["crash"]["mode"]] = 1
        if plan["power"]:
            power_loss(root, d["track"], plan["power"]["seed"], plan["power"]["mode"])
            fired["power_loss"] = 1
        p = os.path.join(root, "doc", plan["name"])
        now = None
        if os.path.exists(p):
            with open(p, "rb") as fh:
                now = fh.read()
        h["missing"] = now is None
        h["damaged"] = now is not None and not allowed(orig, now)
        h["changed"] = now != orig
        log = d["log"] + ["final %s" % (ops.sha(now)[:12] if now is not None else None)]
        if now is not None and (d["crashed"] or plan["power"] or plan["faults"] or plan["nthreads"] > 1):
            def again():
                w = world.World(root, memo=ctx.memo)
                w.activate()
                env = ops.Env(w)
                return ops.run_op({"k": "file", "path": w.path("doc", plan["name"]), "kbs": KB}, env, [])
            st, val = runner.in_child(again, 90)
            if st != "ok":
                raise runner.HarnessError("re-extraction: %s %s" % (st, val))
            h["again"] = val
            log.append("again " + ops.sha(ops.canon([val.get("ok"), val.get("err")]))[:12])
        h["log"] = log
        if h["inter"]:
            fired["interleaved"] = 1
        h["fired"] = fired
        h["nontrivial"] = bool(fired)
        h["events"] = len(log)
        h["probes"] = {"mutations": d["nmut"], "file_changed": int(h["changed"]), "re_extracted": int("again" in h)}
        return h

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        if hist.get("stuck"):
            out.append({"cls": "stuck", "what": "calls blocked for ever: %s" % hist["stuck"]})
        if hist["bad"]:
            out.append({"cls": "instant", "what": hist["bad"][0]})
        if hist["missing"]:
            out.append({"cls": "missing", "what": "the document file is gone"})
        if hist["damaged"]:
            out.append({"cls": "damaged", "what": "the document holds neither its original nor its stripped bytes (%s)" % sorted(hist["fired"])})
        exp = ctx.pristine({"k": "file", "doc": plan["doc"], "kbs": KB})["out"]
        if "again" in hist and not ops.same(exp, hist["again"]):
            out.append({"cls": "again", "what": "a repeated extraction gives another result (%s)" % sorted(hist["fired"]),
                        "diff": pool.diff(exp, hist["again"])})
        if not plan["faults"]:
            for t, o in enumerate(hist["outs"]):
                if o is not None and not ops.same(exp, o):
                    out.append({"cls": "diff", "what": "call %d differs from the same call alone" % t, "diff": pool.diff(exp, o)})
        return out

    def reductions(self, plan):
        for key in ("stops", "faults"):
            for i in range(len(plan[key]) - 1, -1, -1):
                yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})
        if plan["power"]:
            yield dict(plan, power=None)
        if plan["crash"]:
            yield dict(plan, crash=None)
        if plan.get("shorts"):
            yield {k: v for k, v in plan.items() if k != "shorts"}
        if plan["nthreads"] > 1 and not plan["stops"]:
            yield dict(plan, nthreads=1, first=0)
        for k in ("keys", "nurls", "body", "leadnl"):
            if k in plan["doc"]:
                yield dict(plan, doc={a: b for a, b in plan["doc"].items() if a != k})
