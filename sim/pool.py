"""Seeded pools of related operations, and the generic multi-thread executor."""
import copy
import gc
import json
import random

from . import core, corpus, ops, runner, world

_pools = {}


class Pool:
    """A bounded set of ops sharing sources and KB sets, so that oracle runs are reused
    and interference between related calls is likely."""

    def __init__(self, seed, size=110, files=True, service=True, urls=False):
        rng = random.Random("pool/%s/%s" % (seed, size))
        nsrc = max(18, size // 8)
        # every synthetic line is in at least one source
        every = [ln.replace("{0}", str(k % 2)) for k, ln in enumerate(corpus.SYNTH)]
        self.srcs = ["\n".join(every[:6]), "\n".join(every[6:12])]
        every = rng.sample(every[12:], len(every) - 12)
        self.cover = ["\n".join(every[k:k + 3]) for k in range(0, len(every), 3)]
        self.srcs += [corpus.pick_source(rng) for _ in range(nsrc - 2)] + self.cover
        for k, style in enumerate(rng.sample(corpus.MARKS[1:], 5)):
            self.srcs[2 + k] = "\n".join(corpus.remark([corpus.pick_line(rng) for _ in range(1 + k % 3)], style))
        self.kbs = [corpus.pick_kbs(rng) for _ in range(6)]
        # set 0 has entries for every kind of line
        for t, ks in self.kbs[0].items():
            ks[1] = 3 if t in ("journals", "special_journals", "collaborations") else ks[1] % 4
        self.kbs += [corpus.pick_kbs(rng, full=False) for _ in range(3)]
        # sets that differ in exactly one type from set 0
        for t in corpus.KB_TYPES:
            s = dict(self.kbs[0])
            s[t] = [s[t][0], (s[t][1] + rng.choice((4, 4, 1 + rng.randrange(corpus.NVAR - 1)))) % corpus.NVAR]
            self.kbs.append(s)
        self.kbs.append(None)
        self.docs = [{"t": "pdf", "seed": rng.randrange(99), "nrefs": 4, "single": 1, "keys": 1, "nurls": 4},
                     {"t": "pdf", "seed": rng.randrange(99), "nrefs": 3, "lead": 40, "trail": 30},
                     {"t": "txt", "seed": rng.randrange(99), "nrefs": 4},
                     {"t": "txt", "seed": rng.randrange(99), "nrefs": 3, "uni": 1},
                     {"t": "txt", "seed": rng.randrange(99), "nrefs": 3, "marks": rng.choice(("%d.", "(%d)", "{%d}"))},
                     {"t": "txt", "seed": rng.randrange(99), "nrefs": 7, "single": 1, "pages": 4},
                     {"t": "pdf", "seed": rng.randrange(99), "nrefs": 4, "single": 1, "keys": 2, "nurls": 4},
                     {"t": "pdf", "seed": rng.randrange(99), "nrefs": 7, "single": 1, "keys": 1, "nurls": 5, "cols": rng.choice((6, 8)), "body": 4},
                     {"t": "pdf", "seed": rng.randrange(99), "nrefs": 5, "single": 1, "keys": 1, "nurls": 5, "pp": 12, "body": 5}]
        self.docs += [{"t": "txt", "seed": rng.randrange(99), "nrefs": 4, "shape": x} for x in ["after"] + rng.sample([x for x in ops.SHAPES if x != "after"], 2)]
        self.ops = []
        seen = set()
        for s in self.cover:
            for kbs in (self.kbs[0], rng.choice(self.kbs[9:17])):
                self.ops.append({"k": "string", "src": s, "kbs": kbs})
                seen.add(ops.canon(self.ops[-1]))
        size += len(self.ops)
        guard = 0
        while len(self.ops) < size and guard < size * 20:
            guard += 1
            op = self._make(rng, files, service)
            k = ops.canon(op)
            if k not in seen:
                seen.add(k)
                self.ops.append(op)
        src = self.srcs[0].split("\n")
        doc = self.docs[2]
        self.defaults = [{"k": "string", "src": "\n".join(src[:3])}, {"k": "journal", "line": corpus.strip_marker(corpus.SYNTH[1])},
                         {"k": "journal", "line": corpus.strip_marker(corpus.SYNTH[12])},
                         {"k": "file", "doc": doc, "name": "d2/paper.pdf"}, {"k": "x_list", "items": src[1:3]},
                         {"k": "x_text", "src": "\n".join(src[2:4])},
                         {"k": "x_jinfo", "infos": [{"pubinfo_freetext": corpus.strip_marker(corpus.SYNTH[13])}]}]
        self.ops += [o for o in self.defaults if ops.canon(o) not in seen]
        d0 = self.docs[0]
        self.fileops = [{"k": "file", "doc": d, "name": "d%d/paper.pdf" % n, "kbs": self.kbs[n % 2]} for n, d in enumerate(self.docs)]
        # the same text with other keys and links, and another text with as many references
        self.fileops += [{"k": "file", "doc": d, "kbs": self.kbs[0]} for d in (dict(d0, keys=2), dict(d0, nurls=2), dict(d0, seed=d0["seed"] + 1))]
        # texts with the same number of lines, the same first and the same last line; and two columns that are hardly used
        tw = [{"t": "txt", "seed": rng.randrange(99), "nrefs": n, "body": 12 - n, "last": 1, "single": 1} for n in (3, 5)]
        tw.append(dict(tw[1], marks="%d."))
        tw.append({"t": "pdf", "seed": rng.randrange(99), "nrefs": 4, "single": 1, "keys": 1, "nurls": 3, "cols": 8, "body": 4})
        self.fileops += [{"k": "file", "doc": d, "kbs": self.kbs[0]} for d in tw]
        # documents that have much in common
        d5, d7, d8 = dict(self.docs[5], nrefs=26, body=2, pages=6), self.docs[7], self.docs[8]
        self.alikes = [[{"k": "file", "doc": d, "kbs": self.kbs[0]} for d in ds] for ds in (
            (d5, dict(d5, heads=1)), (d5, dict(d5, heads=1)), (d5, dict(d5, marks="%d.")), tw[:2], tw[1:3], (d0, dict(d0, keys=2)), (d0, dict(d0, nurls=2)),
            (d7, dict(d7, seed=d7["seed"] + 1)), (d7, dict(d7, keys=2)), (d8, dict(d8, nurls=1)), (d8, dict(d8, seed=d8["seed"] + 1)))]
        self.docops = [o for o in self.ops if "doc" in o] + self.fileops
        self.urlops = [o for o in self.docops if "url" in o] or self.docops
        # calls that are repeated with one argument changed
        self.bases = [{"k": "string", "src": s, "kbs": self.kbs[0]} for s in self.srcs[:4] + self.cover] + [o for o in self.ops if o["k"] == "string" and "kbs" in o][:2]
        self.bases += [o for k in ("file", "journal", "x_list", "x_text") for o in [x for x in self.ops if x["k"] == k and "kbs" in x][:1]]
        # many short lines: more than a small bounded cache holds
        short = ["A%s. Author, Simul. Lett. %d (20%02d) %d" % (chr(97 + k), k + 3, k % 20, 7 * k + 1) if k % 3 else
                 "B. Writ%ser, SIM-REP-%d, hep-th/99010%02d" % (chr(97 + k), 12340 + k, k) for k in range(24)]
        short[4:8] = short[2:4] * 2
        self.longs = [{"k": "string", "src": "\n".join("[%d] %s" % (j + 1, x) for j, x in enumerate(sel)), "kbs": self.kbs[0]}
                      for sel in (short[:18], short[9:18] + short[:9], short[6:])]
        self.ops += self.longs
        self.by_src = {}
        self.by_kbs = {}
        for i, op in enumerate(self.ops):
            self.by_src.setdefault(self._skey(op), []).append(i)
            self.by_kbs.setdefault(ops.canon(op.get("kbs")), []).append(i)

    def _skey(self, op):
        return ops.canon(op.get("src") or op.get("line") or op.get("doc") or op.get("items") or op.get("infos"))

    def _kbs(self, rng):
        r = rng.random()
        if r < 0.12:
            return None
        if r < 0.55:
            # one of a family that differs in one type
            return rng.choice([self.kbs[0]] + self.kbs[9:17])
        return rng.choice(self.kbs[:9])

    def _make(self, rng, files, service):
        r = rng.random()
        kbs = self._kbs(rng)
        if service and r < 0.18:
            j = {"journals": [rng.choice(("dict", "list", "path")), rng.randrange(corpus.NVAR)]}
            x = rng.choice(("x_list", "x_text", "x_jinfo", "x_list", "x_text", "x_jinfo", "x_url"))
            if x == "x_url":
                return self._url({"k": x, "kbs": j}, rng)
            if x == "x_list":
                return {"k": x, "items": [corpus.pick_line(rng) for _ in range(rng.randrange(1, 4))], "kbs": j}
            if x == "x_text":
                return {"k": x, "src": rng.choice(self.srcs), "kbs": j}
            return {"k": x, "infos": [{"pubinfo_freetext": corpus.strip_marker(corpus.pick_line(rng))} if rng.random() < .8 else {}
                                      for _ in range(rng.randrange(1, 4))], "kbs": j}
        if files and r < 0.33:
            if rng.random() < 0.25:
                op = self._url({"k": "url", "kbs": kbs or self.kbs[0]}, rng)
                if rng.random() < 0.5:
                    op["chunk"] = rng.choice((1, 100, 4096))
            else:
                n = rng.randrange(len(self.docs))
                # the same file name in different directories
                op = {"k": "file", "doc": self.docs[n], "name": "d%d/paper.pdf" % n, "kbs": kbs or self.kbs[0]}
                if rng.random() < 0.35:
                    op["rel"] = 1
        elif r < 0.43:
            return {"k": "journal", "line": corpus.strip_marker(rng.choice(corpus.SYNTH)).replace("{0}", "2"), "kbs": kbs}
        else:
            op = {"k": "string", "src": rng.choice(self.srcs), "kbs": kbs}
            if rng.random() < 0.15:
                op["only"] = False
        if rng.random() < 0.5:
            op["fmt"] = rng.choice(corpus.FORMATS)
        if rng.random() < 0.3:
            op["linker"] = {"mode": "hash", "salt": rng.randrange(3)}
        if rng.random() < 0.1:
            op["recid"] = rng.randrange(1000)
        if op["kbs"] is None:
            op.pop("kbs")
        return op

    def _url(self, op, rng):
        """The same last component of the URL on different hosts."""
        n = rng.randrange(len(self.docs))
        url = "http://h%d.example.org/papers/paper.pdf" % n
        resp = {"status": 200, "doc": self.docs[n], "framing": rng.choice(("length", "chunked", "close"))}
        op.update(url=url, doc=self.docs[n], serve=[{"url": url, "seq": [resp]}])
        return op

    def twin(self, rng, op):
        """The same call with other knowledge bases, another linker, output format or record number."""
        if op["k"].startswith("x_"):
            return dict(op, kbs={"journals": [rng.choice(("dict", "path")), rng.randrange(3)]})
        if op["k"] not in ("string", "file", "url") or rng.random() < 0.5:
            return dict(op, kbs=rng.choice(self.kbs[:6]))
        what = rng.choice(("linker", "linker", "fmt", "recid"))
        if what == "linker":
            return dict(op, linker={"mode": "hash", "salt": rng.choice((7, 8))})
        if what == "fmt":
            return dict(op, fmt=rng.choice(corpus.FORMATS))
        return dict(op, recid=rng.choice((5, 6)))

    def pick(self, rng, like=None):
        if like is not None and rng.random() < 0.65:
            c = self.by_src.get(self._skey(like)) if rng.random() < 0.55 else self.by_kbs.get(ops.canon(like.get("kbs")))
            if c:
                return self.ops[rng.choice(c)]
        return self.ops[rng.randrange(len(self.ops))]


def pool(seed, size=110, **kw):
    k = (seed, size, tuple(sorted(kw.items())))
    p = _pools.get(k)
    if p is None:
        p = _pools[k] = Pool(seed, size, **kw)
    return p


# ---------------------------------------------------------------- executor
def exec_threads(plan, ctx, armed=None, world_kw=None, timeout=90.0):
    """Run plan["threads"] (lists of steps) under plan["stops"] in a forked child.

    Step kinds: {"op": op} | {"mut": name, "how":..} | {"mutres": n} | {"newobj": name, ...}
    """

    def body():
        log = []
        w = ctx.world("run", log=log, **(world_kw or {}))
        w.activate()
        env = ops.Env(w)
        sched = core.Sched(log=log)
        sched.armed = armed
        outs = []
        objs = {}
        live = []

        def step(th, ti, si, st):
            rec = {"t": ti, "s": si}
            outs.append(rec)
            if "newobj" in st:
                o = ops.kb_object(st["type"], ["dict" if st["form"] == "view" else st["form"], st["v"]], w.root)
                objs[st["newobj"]] = [st["type"], st["form"], o.items() if st["form"] == "view" else o, o]
                rec["kind"] = "newobj"
                return
            if "mut" in st:
                o = objs.get(st["mut"])
                if o is not None and o[1] != "path":
                    mutate_kb(o[0], o[3], st["how"])
                rec["kind"] = "mut"
                return
            if "mutres" in st:
                if live:
                    i = st["mutres"] % len(live)
                    scramble(live[i][1])
                    live[i][2] = None
                rec["kind"] = "mutres"
                return
            op = st["op"]
            rec["kind"] = "op"
            kbs = ops.kb_objects(op.get("kbs"), w.root)
            lit = None
            if st.get("use"):
                kbs = dict(kbs or {})
                lit = dict(op.get("kbs") or {})
                for name in st["use"]:
                    o = objs.get(name)
                    if o is None:
                        continue
                    kbs[o[0]] = o[2]
                    lit[o[0]] = lit_kb(o[1], o[2]) if o[1] != "path" else [o[1], st["use"][name]]
                rec["lit"] = lit
            before = ops.canon(kbs)
            nfired = len(sched.fired)
            sched.begin_op(th, si)
            ll = []
            hold = []
            out = ops.run_op(op, env, ll, kbs=kbs, hold=hold)
            if ops.canon(kbs) != before:
                rec["argmut"] = True
            if hold and st.get("keep", True):
                live.append([len(outs) - 1, hold[0], ops.canon(hold[0])])
            rec["out"] = out
            log.append("out %d.%d %s" % (ti, si, ops.sha(ops.canon(out))[:12]))
            rec["hit"] = any(plan["stops"][i].get("act") == "raise" for i in sched.fired[nfired:])

        def mk(ti, steps):
            def go(th):
                for si, st in enumerate(steps):
                    step(th, ti, si, st)
            return go

        for ti, steps in enumerate(plan["threads"]):
            sched.spawn(mk(ti, steps))
        sched.load_stops(plan.get("stops", ()))
        ok = sched.run(plan.get("first", 0))
        changed = [i for i, o, c in live if c is not None and ops.canon(o) != c]
        fired = dict(w.fired)
        for i in sched.fired:
            st = plan["stops"][i]
            k = "abort." + st["exc"] if st.get("act") == "raise" else "switch"
            fired[k] = fired.get(k, 0) + 1
        inter = ops.sha(repr(sched.interleaving))[:12] if sched.interleaving else None
        return {"outs": outs, "changed": changed, "stuck": sched.stuck, "fired": fired, "log": log,
                "nested": env.nested, "inter": inter, "switches": sched.switches, "nfired": len(sched.fired),
                "events": sum(w.counts.values()), "simtime": w.slept}

    st, val = runner.in_child(body, timeout)
    if st == "error":
        raise runner.HarnessError(val)
    if st != "ok":
        return {"status": st, "detail": val, "outs": [], "log": [st]}
    val["status"] = "ok"
    val["nontrivial"] = bool(val["nfired"]) and any("out" in o for o in val["outs"])
    return val


def lit_kb(form, val):
    """The present content of a KB object as a KB spec (keeping the order of a mapping)."""
    if isinstance(val, dict):
        return ["lit", "pairs", [[k, v] for k, v in val.items()]]
    if form in ("set", "deque", "view"):
        return ["lit", "list", json.loads(json.dumps(sorted(val) if form == "set" else list(val)))]
    return ["lit", form, json.loads(json.dumps(val))]


def mutate_kb(t, o, how):
    """An in-place edit of a caller-owned KB object."""
    if how == "turn":
        if isinstance(o, dict):
            items = list(o.items())[::-1]
            o.clear()
            o.update(items)
        elif not isinstance(o, set):
            o.reverse()
    elif isinstance(o, set):
        o.symmetric_difference_update(("Sim.Special", "JHEP") if how == "add" else ("JHEP",))
    elif isinstance(o, dict):
        for k in list(o):
            if how in ("rename", "inner"):
                o[k] = o[k] + "X"
            elif how == "clear1":
                del o[k]
                break
        if how == "add":
            o["SIM SPECIAL"] = "Sim.Added"
    elif not o:
        return
    elif t in corpus.PAIR_TYPES:
        if how == "rename":
            o[0] = [o[0][0], o[0][1] + "X"]
        elif how == "inner" and isinstance(o[0], list):
            for e in o:
                e[1] = e[1] + "X"
        elif how in ("clear1", "inner"):
            del o[0]
        else:
            o.append(["SIM EXTRA", "Sim.Extra"])
    elif t == "books":
        if how == "inner" and isinstance(o[0], list):
            o[0][2] = "1991;"
        else:
            o[0] = [o[0][0], o[0][1], "1991;"]
    else:
        if how in ("rename", "inner"):
            o[-1] = o[-1] + "X"
        elif how == "clear1":
            o.pop()
        elif t == "special_journals":
            o.append("Sim.Special")


def scramble(o, depth=0):
    """A caller editing a result it got back."""
    if isinstance(o, list):
        for x in o:
            scramble(x, depth + 1)
        o.append("scrambled")
    elif isinstance(o, dict):
        for k in list(o):
            v = o[k]
            if isinstance(v, (list, dict)):
                scramble(v, depth + 1)
            else:
                o[k] = "scrambled"
        o["scrambled"] = ["scrambled"]


def judge_threads(plan, hist, ctx, skip_hit=True):
    """Every completed call equals the same call alone in a fresh process."""
    from .prop import bad_status
    if hist["status"] != "ok":
        return bad_status(hist["status"], hist.get("detail"))
    out = []
    if hist.get("stuck"):
        out.append({"cls": "stuck", "what": "threads blocked for ever: %s" % hist["stuck"]})
    for i, rec in enumerate(hist["outs"]):
        if rec.get("kind") != "op" or "out" not in rec:
            continue
        if skip_hit and rec.get("hit"):
            continue
        op = plan["threads"][rec["t"]][rec["s"]]["op"]
        if rec.get("lit") is not None:
            op = dict(op, kbs=rec["lit"])
        op = strip_reenter(op)
        exp = ctx.pristine(op, profile=False)["out"]
        if not ops.same(exp, rec["out"]):
            out.append({"cls": "diff:" + op["k"], "what": "call %d of thread %d (%s) differs from the same call in a fresh process"
                        % (rec["s"], rec["t"], op["k"]), "diff": diff(exp, rec["out"]), "op": op})
        if rec.get("argmut"):
            out.append({"cls": "argmut", "what": "call %d of thread %d modified the caller's override object" % (rec["s"], rec["t"])})
    for i in hist.get("changed", ()):
        out.append({"cls": "alias", "what": "result of step %d was changed by a later call" % i})
    for op, got in hist.get("nested", ()):
        exp = ctx.pristine(op, profile=False)["out"]
        if not ops.same(exp, got):
            out.append({"cls": "diff:nested", "what": "a call made from inside a linker differs from the same call in a fresh process",
                        "diff": diff(exp, got), "op": op})
    return out


def strip_reenter(op):
    op = {k: v for k, v in op.items() if k not in ("name", "fresh")}
    l = op.get("linker")
    if l and l.get("mode") == "reenter":
        op = dict(op, linker={"mode": "hash", "salt": l.get("salt", "")})
    return op


def clip(o, n=300):
    s = json.dumps(o, sort_keys=True)
    return s if len(s) <= n else s[:n] + "..."


def diff(exp, got, path="", out=None):
    """First few differing fragments, as strings."""
    out = [] if out is None else out
    if len(out) >= 4:
        return out
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in sorted(set(exp) | set(got), key=str):
            if k == "msg":
                continue
            if k not in exp or k not in got or exp[k] != got[k]:
                diff(exp.get(k, "<absent>"), got.get(k, "<absent>"), path + "." + str(k), out)
    elif isinstance(exp, list) and isinstance(got, list) and len(exp) == len(got):
        for i, (a, b) in enumerate(zip(exp, got)):
            if a != b:
                diff(a, b, "%s[%d]" % (path, i), out)
    else:
        out.append("at %s: expected %s, got %s" % (path or ".", clip(exp, 160), clip(got, 160)))
    return out


def simplify_threads(plan):
    """Plan reductions: drop steps (fixing up stops), drop threads, drop source lines."""
    th = plan["threads"]
    for ti in range(len(th) - 1, -1, -1):
        for si in range(len(th[ti]) - 1, -1, -1):
            if len(th[ti]) == 1 and len(th) == 1:
                continue
            nt = copy.deepcopy(th)
            del nt[ti][si]
            stops = []
            for st in plan["stops"]:
                if st["t"] == ti and "o" in st:
                    if st["o"] == si:
                        continue
                    if st["o"] > si:
                        st = dict(st, o=st["o"] - 1)
                stops.append(st)
            if not nt[ti]:
                del nt[ti]
                stops = [dict(s, t=s["t"] - (s["t"] > ti), **({"to": max(0, s["to"] - (s["to"] > ti))} if s.get("to") is not None else {}))
                         for s in stops if s["t"] != ti]
            if nt:
                yield dict(plan, threads=nt, stops=stops)
    for ti in range(len(th)):
        for si in range(len(th[ti])):
            op = th[ti][si].get("op")
            if not op:
                continue
            for key in ("linker", "fmt", "recid", "only"):
                if key in op:
                    nt = copy.deepcopy(th)
                    nt[ti][si]["op"].pop(key)
                    yield dict(plan, threads=nt)
            if "src" in op and "\n" in op["src"]:
                ls = op["src"].split("\n")
                for i in range(len(ls)):
                    nt = copy.deepcopy(th)
                    nt[ti][si]["op"]["src"] = "\n".join(ls[:i] + ls[i + 1:])
                    yield dict(plan, threads=nt)
