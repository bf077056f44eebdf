"""Sequential executor: a list of calls, each with its own script of world faults."""
import gc
import os
import shutil

from . import core, ops, runner, world

# what can go wrong at each kind of event
KINDS = {
    "open": ("EMFILE", "EACCES", "EIO", "ENOMEM"),
    "openw": ("EMFILE", "EACCES", "ENOSPC", "EROFS"),
    "creat": ("ENOSPC", "EACCES", "EMFILE", "EROFS"),
    "read": ("EIO", "ESTALE", "ENOMEM"),
    "write": ("ENOSPC", "EIO", "EDQUOT", "partial"),
    "truncate": ("EIO", "EPERM"),
    "rename": ("EIO", "EACCES", "ENOSPC"),
    "fsync": ("EIO", "ENOSPC"),
    "mmap": ("ENOMEM", "EACCES"), "mmove": ("EIO",), "mresize": ("EIO", "ENOSPC"),
    "seek": ("EIO",),
}
HARMLESS = ("short", "shortw")
CLEANUP = ("remove",)


def gen_faults(rng, counts, n=1, classes=("tmp", "doc", "kb", "pipe"), ops_=None, harmless=0.0):
    """n faults at seeded positions of the events a fault-free run performs."""
    keys = []
    for k in sorted(counts):
        c, _, o = k.partition(".")
        if c in classes and o in KINDS and (ops_ is None or o in ops_):
            keys.append(k)
    out = []
    if not keys:
        return out
    for _ in range(n):
        k = rng.choice(keys)
        o = k.partition(".")[2]
        cnt = counts[k]
        f = {"at": k, "n": rng.randrange(cnt) if rng.random() < 0.8 else rng.choice((0, cnt - 1))}
        if o == "read" and rng.random() < harmless:
            f.update(kind="short", size=rng.choice((1, 2, 7, 100)))
        elif o == "write" and rng.random() < harmless:
            f.update(kind="shortw", size=rng.choice((1, 10, 500)))
        else:
            f["kind"] = rng.choice(KINDS[o])
            if rng.random() < 0.2:
                f["sticky"] = True
        out.append(f)
    return out


def exec_steps(plan, ctx, sub="run", timeout=90.0, pre=None, post=None, armed=None):
    """Run plan["steps"] in order in one forked child.

    step: {"op", "faults", "converter", "shorts", "clock"}
    Returns hist: outs[i] = {out, fired, residue, socks, counts, links}
    """

    def body():
        log = []
        w = ctx.world(sub, log=log)
        w.activate()
        env = ops.Env(w)
        outs = []
        fired = {}
        state = {"env": env, "w": w}
        sched = core.Sched(log=log)
        sched.armed = armed

        def go(th):
            for si, st in enumerate(plan["steps"]):
                rec = {}
                outs.append(rec)
                op = st["op"]
                # materialise inputs before the faults are armed
                w.begin_step()
                if op["k"] == "file" and "doc" in op and "path" not in op:
                    env.doc(op["doc"], op.get("name"))
                kbs = ops.kb_objects(op.get("kbs"), w.root)
                if pre is not None:
                    pre(state, si, st)
                before = set(os.listdir(w.path("doc")))
                if st.get("clock") is not None:
                    world.set_clock(st["clock"])
                w.begin_step(st.get("faults", ()), st.get("converter"), st.get("shorts"), st.get("vanish"))
                w.fired.clear()
                ll = []
                keep = []
                nf = len(sched.fired)
                del env.raised[:]
                sched.begin_op(th, si)
                out = ops.run_op(op, env, ll, kbs=kbs, keep=keep)
                rec["out"] = out
                rec["nlraised"] = len(env.raised)
                rec["through"] = bool(keep) and bool(env.raised) and keep[0] is env.raised[0]
                rec["fired"] = dict(w.fired)
                rec["fidx"] = sorted(w.fired_idx)
                rec["links"] = ll
                rec["nraise"] = len(sched.fired) - nf
                rec["counts"] = dict(w.counts)
                rec["nconv"] = w.nconv
                rec["empty"] = list(w.emptied)
                rec["residue"] = w.residue(ignore=before)
                keep.clear()
                del env.raised[:]     # exceptions keep frames, and with them sockets, alive
                if w.socks:
                    gc.collect()
                    rec["socks"] = w.open_sockets()
                w.begin_step()
                if post is not None:
                    post(state, si, st, rec)
                for name in sorted(os.listdir(w.path("tmp"))):
                    p = w.path("tmp", name)
                    if os.path.isdir(p) and not os.path.islink(p):
                        shutil.rmtree(p, ignore_errors=True)
                    else:
                        world.real["os.remove"](p)
                for k, v in rec["fired"].items():
                    fired[k] = fired.get(k, 0) + v
                log.append("out %d %s" % (si, ops.sha(ops.canon([out.get("ok"), out.get("err")]))[:12]))

        sched.spawn(go)
        sched.load_stops(plan.get("stops", ()))
        sched.run()
        for i in sched.fired:
            k = "abort." + plan["stops"][i].get("exc", "switch")
            fired[k] = fired.get(k, 0) + 1
        return {"outs": outs, "fired": fired, "log": log, "nested": env.nested, "events": len(log), "simtime": w.slept,
                "nfired": len(sched.fired)}

    st, val = runner.in_child(body, timeout)
    if st == "error":
        raise runner.HarnessError(val)
    if st != "ok":
        return {"status": st, "detail": val, "outs": [], "log": [st], "fired": {}}
    val["status"] = "ok"
    val["nontrivial"] = bool(val["fired"])
    return val


def dry(step, ctx):
    """Event counts and outcome of a step without any error fault (memoised)."""
    st = {k: v for k, v in step.items() if k not in ("faults", "vanish")}
    st["converter"] = [{k: v for k, v in (c or {}).items() if k in ("chunks", "cap", "lag", "slow")} for c in st.get("converter") or ()]

    def fn(op, w, env):
        raise AssertionError
    key = ops.sha(ops.canon(["dry", st]))
    v = ctx.cache.get(key)
    if v is None:
        h = exec_steps({"steps": [st]}, ctx, sub="oracle")
        if h["status"] != "ok":
            v = {"out": {"err": "#" + h["status"]}, "counts": {}, "nconv": 0, "links": []}
        else:
            v = h["outs"][0]
        ctx.noracle += 1
        ctx.cache[key] = v
    return v


def simplify_steps(plan):
    import copy
    steps = plan["steps"]
    for i in range(len(steps) - 1, -1, -1):
        if len(steps) > 1:
            stops = [dict(s, o=s["o"] - (s["o"] > i)) for s in plan.get("stops", ()) if s.get("o") != i]
            yield dict(plan, steps=steps[:i] + steps[i + 1:], **({"stops": stops} if "stops" in plan else {}))
    for i, st in enumerate(steps):
        for key in ("faults", "converter"):
            for j in range(len(st.get(key) or ()) - 1, -1, -1):
                ns = copy.deepcopy(steps)
                if key == "converter":
                    if not ns[i][key][j]:
                        continue
                    ns[i][key][j] = {}
                else:
                    del ns[i][key][j]
                yield dict(plan, steps=ns)
        if st.get("shorts"):
            ns = copy.deepcopy(steps)
            ns[i].pop("shorts")
            yield dict(plan, steps=ns)
        op = st["op"]
        for key in ("linker", "fmt", "recid", "only", "chunk"):
            if key in op:
                ns = copy.deepcopy(steps)
                ns[i]["op"].pop(key)
                yield dict(plan, steps=ns)
        if isinstance(op.get("src"), str) and "\n" in op["src"]:
            ls = op["src"].split("\n")
            for k in range(len(ls)):
                ns = copy.deepcopy(steps)
                ns[i]["op"]["src"] = "\n".join(ls[:k] + ls[k + 1:])
                yield dict(plan, steps=ns)
        for key in ("items", "infos"):
            if isinstance(op.get(key), list) and len(op[key]) > 1:
                for k in range(len(op[key])):
                    ns = copy.deepcopy(steps)
                    del ns[i]["op"][key][k]
                    yield dict(plan, steps=ns)
