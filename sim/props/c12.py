import base64

from .. import corpus, ops, pool, runner, steps
from ..prop import Prop, bad_status
from .c04 import KB

EXC = ("source", "source", "OSError", "ValueError", "RuntimeError", "KeyError", "cancel")


def b64(b):
    return base64.b64encode(b).decode()


def malformed(rng, t, tag):
    """A KB spec whose source its format rejects, or None."""
    v = rng.randrange(corpus.NVAR)
    form = rng.choice(corpus.FORMS[t])
    if form == "path":
        text = corpus.kb_value(t, v, "path")
        ls = text.encode().split(b"\n")[:-1]
        k = rng.randrange(len(ls) + 1)
        bad = b"\xff\xfe broken --- bytes"
        if rng.random() < 0.6:
            if t in ("journals", "publishers", "collaborations", "journals_re"):
                bad = rng.choice((b"NO SEPARATOR HERE", b"", b"A -- B", b"---", b"HALF---"))
            elif t == "books":
                bad = rng.choice((b"lonely", b""))
            elif t == "report-numbers":
                if not any(l.startswith(b"*") for l in ls[:k]):
                    k = 1
                bad = b"<s(99>"
        ls.insert(k, bad)
        return ["at", "%s-m%s" % (t, tag), b64(b"\n".join(ls) + b"\n")]
    if form == "dict":
        d = dict(corpus.kb_value(t, v, "dict"))
        items = list(d.items())
        k = rng.randrange(len(items) + 1)
        # journals and collaborations treat the pair as strings; publishers compile the key
        items.insert(k, ("(", "x") if t == "publishers" else ("BAD KEY", None) if t == "journals" else ("(", "x"))
        return ["lit", "dict", dict(items)]
    val = corpus.kb_value(t, v, "list")
    k = rng.randrange(len(val) + 1)
    if t in ("journals", "publishers", "collaborations", "books"):
        bad = rng.choice((["lonely"], []))
    elif t == "journals_re":
        bad = rng.choice(("NO SEPARATOR", ""))
    elif t == "report-numbers":
        k = max(k, 1)
        bad = "<s(99>"
    else:
        bad = None            # not a line at all
    val = list(val)
    val.insert(k, bad)
    return ["lit", "list", val]


def repaired(t, ks):
    """The same source once the fault is gone: a good KB, under the same path if it is a file."""
    if ks[0] == "at":
        return ["at", ks[1], b64(corpus.kb_value(t, 3, "path").encode())]
    return [ks[1] if ks[0] == "lit" else "list", 3]


class P(Prop):
    id = "C12"
    quick, thorough = 1600, 40000
    rule = ("a run = 0-1 good calls, 1-2 calls whose knowledge bases meet a seeded fault (open or read error at the n-th KB read, a malformed or "
            "undecodable entry at a seeded position, a missing file, an iterable that fails half-way, short reads), then retries and other calls; a "
            "faulted call must raise (or return the exact fault-free result), all others must be exact; sometimes two threads load concurrently; "
            "non-trivial = a fault took effect; distinct = distinct event logs")
    components = {"real": ["all refextract code", "scratch file system"],
                  "stub": ["KB read errors and short reads", "caller's KB iterables", "thread scheduling (two-thread runs)"]}
    assumptions = ("a KB file that is shorter than intended but well formed cannot be recognised as incomplete",
                   "lines that the author, report-number and special-journal formats define as ignored are not malformed")
    lists = ("stops", "faults")

    def op(self, rng, kbs):
        r = rng.random()
        if r < 0.12:
            return {"k": "journal", "line": corpus.strip_marker(rng.choice(corpus.SYNTH)).replace("{0}", "2"), "kbs": kbs}
        if r < 0.2:
            return {"k": "file", "doc": {"t": "txt", "seed": rng.randrange(5), "nrefs": 3}, "kbs": kbs}
        src = "\n".join(rng.sample(corpus.SYNTH, 3)).replace("{0}", "1") if rng.random() < 0.8 else corpus.pick_source(rng)
        return {"k": "string", "src": src, "kbs": kbs}

    def generate(self, rng, ctx, i, cfg):
        good = corpus.pick_kbs(rng)
        if rng.random() < 0.25:
            return self.gen_threads(rng, ctx, good)
        out = []
        if rng.random() < 0.5:
            g = dict(good)
            if rng.random() < 0.6:
                t = rng.choice(corpus.KB_TYPES)
                g[t] = [rng.choice(corpus.FORMS[t]), rng.randrange(corpus.NVAR)]
            out.append({"op": self.op(rng, g)})
        retry = None
        for _ in range(rng.choice((1, 1, 2))):
            t = rng.choice(corpus.KB_TYPES)
            r = rng.random()
            kb = dict(good)
            st = {}
            if r < 0.35:
                kb[t] = malformed(rng, t, len(out))
                st["must"] = True
                retry = dict(kb, **{t: repaired(t, kb[t])})
            elif r < 0.5:
                kb[t] = ["failiter", rng.randrange(4), rng.randrange(12), rng.choice(EXC)]
                st["must"] = True
                retry = dict(kb, **{t: ["iter", 3]}) if rng.random() < 0.5 else dict(kb, **{t: ["list", kb[t][1]]})
            elif r < 0.55:
                kb[t] = ["missing"]
                st["must"] = True
                retry = good
            else:
                for x in rng.sample(corpus.KB_TYPES, 4):
                    kb[x] = ["path", kb[x][1]]
                retry = kb
                if rng.random() < 0.06:
                    kb = {"journals": ["path", 0], "authors": ["path", 1]}
                    retry = kb
            st["op"] = self.op(rng, kb)
            if r >= 0.55:
                st["shorts"] = {"kb": rng.choice((1, 3, 7, 16, 30, 64)) if len(kb) > 4 else 4096}
                if r < 0.92:
                    cnt = steps.dry(dict(st), ctx)["counts"]
                    st["faults"] = steps.gen_faults(rng, cnt, rng.choice((1, 1, 2)), classes=("kb",), ops_=("open", "read"))
            out.append(st)
            for _ in range(rng.choice((0, 1, 1, 2))):
                q = rng.random()
                k2 = retry if q < 0.6 else good if q < 0.85 else corpus.pick_kbs(rng)
                o2 = self.op(rng, k2)
                if q < 0.6 and st["op"]["k"] == "string":
                    o2 = dict(st["op"], kbs=k2)
                out.append({"op": o2})
        return {"steps": out}

    def gen_threads(self, rng, ctx, good):
        kb = dict(good)
        for x in rng.sample(corpus.KB_TYPES, 5):
            kb[x] = ["path", kb[x][1]]
        threads = []
        for t in range(2):
            threads.append([{"op": self.op(rng, kb if rng.random() < 0.7 else good)} for _ in range(rng.choice((1, 2)))])
        cnt = steps.dry({"op": threads[0][0]["op"], "shorts": {"kb": 40}}, ctx)["counts"]
        faults = steps.gen_faults(rng, cnt, rng.choice((1, 1, 2)), classes=("kb",), ops_=("open", "read"))
        stops = []
        for _ in range(rng.choice((1, 2, 4))):
            t = rng.randrange(2)
            if rng.random() < 0.4:
                stops.append({"t": t, "io": rng.randrange(60), "to": 1 - t})
                continue
            run = ctx.pristine(threads[t][0]["op"], profile=True)
            only = ("references/kbs.py",) if any(f.startswith("references/kbs.py:") for f in run["prof"]) else None
            sp = runner.sample_stop(rng, run, t, 0, bias=0.7, hot=ctx.hot(), only=only)
            if sp:
                sp["to"] = 1 - t
                stops.append(sp)
        return {"threads": threads, "stops": stops, "faults": faults, "first": 0}

    def execute(self, plan, ctx):
        if "threads" in plan:
            return pool.exec_threads(plan, ctx, world_kw={"faults": plan["faults"], "shorts": {"kb": 40}})
        h = steps.exec_steps(plan, ctx)
        for st in plan["steps"]:
            if st.get("must"):
                k = "kb." + next(v[0] for v in st["op"]["kbs"].values() if v[0] in ("at", "lit", "failiter", "missing"))
                h["fired"][k] = h["fired"].get(k, 0) + 1
        h["nontrivial"] = bool(h["fired"])
        return h

    def expected(self, op, ctx):
        """The same call with the same KB contents as plain values, in a fresh process."""
        return ctx.pristine(op)["out"]

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        if "threads" in plan:
            if hist.get("stuck"):
                out.append({"cls": "stuck", "what": "threads blocked for ever: %s" % hist["stuck"]})
            nerr = 0
            for rec in hist["outs"]:
                if "out" not in rec:
                    continue
                op = plan["threads"][rec["t"]][rec["s"]]["op"]
                exp, got = self.expected(op, ctx), rec["out"]
                if not ops.same(exp, got):
                    if "ok" in got or got["err"] not in ("OSError", "PermissionError"):
                        out.append({"cls": "partial", "what": "call %d of thread %d extracted with a partial or foreign knowledge base"
                                    % (rec["s"], rec["t"]), "diff": pool.diff(exp, got)})
                    nerr += 1
            nf = sum(v for k, v in hist["fired"].items() if k.startswith("kb."))
            if nerr > nf:
                out.append({"cls": "spread", "what": "%d calls failed after %d KB faults" % (nerr, nf)})
            return out
        for i, (st, rec) in enumerate(zip(plan["steps"], hist["outs"])):
            got = rec["out"]
            if st.get("must"):
                if "ok" in got:
                    out.append({"cls": "accepted", "what": "call %d: an unusable knowledge base was accepted" % i,
                                "diff": [pool.clip({t: v for t, v in st["op"]["kbs"].items() if v[0] in ("at", "lit", "failiter", "missing")})]})
                continue
            exp = self.expected(st["op"], ctx)
            if ops.same(exp, got):
                continue
            if any(k.startswith("kb.") for k in rec["fired"]):
                if "ok" in got:
                    out.append({"cls": "partial", "what": "call %d extracted with part of a knowledge base" % i, "diff": pool.diff(exp, got)})
            else:
                out.append({"cls": "later", "what": "call %d, with intact knowledge bases, differs from a fresh process" % i,
                            "diff": pool.diff(exp, got)})
        return out

    def simplify(self, plan):
        if "threads" in plan:
            yield from pool.simplify_threads(plan)
        else:
            yield from steps.simplify_steps(plan)
