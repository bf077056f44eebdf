from .. import corpus, ops, pool
from ..prop import Prop

MUTS = ("rename", "add", "clear1", "inner", "turn")

# collections an application may hold its KBs in, besides lists and mappings
MORE = {t: ("view", "rdict", "deque") for t in corpus.PAIR_TYPES}
MORE["special_journals"] = ("set", "set", "deque")


def reorder(op, rng):
    """The same call with its mappings in another order (they compare equal)."""
    kbs = op.get("kbs")
    if not kbs:
        return op
    return dict(op, kbs={t: (["rdict", ks[1]] if ks[0] == "dict" and rng.random() < 0.7 else ks) for t, ks in kbs.items()})


def bad_op(rng, pl):
    """A call that fails on any correct tree (bad KB source, bad input, failing linker)."""
    op = dict(pl.pick(rng))
    if op["k"] not in ("string", "journal", "file"):
        op = dict(pl.ops[0])
    r = rng.randrange(6)
    kbs = dict(op.get("kbs") or {})
    if r == 0:
        kbs[rng.choice(corpus.KB_TYPES)] = ["missing"]
    elif r == 1:
        t = rng.choice(("journals", "publishers", "collaborations"))
        kbs[t] = ["lit", "path", corpus.kb_value(t, 2, "path") + "no separator here\n" + corpus.kb_value(t, 3, "path")]
    elif r == 2:
        kbs["no-such-kb"] = ["lit", "list", ["x---y"]]
    elif r == 3:
        t = rng.choice(("journals", "books", "publishers", "collaborations"))
        good = corpus.kb_value(t, rng.randrange(4), "list")
        good.insert(rng.randrange(len(good) + 1), ["lonely"] if t != "books" else [])
        kbs[t] = ["lit", "list", good]
    elif r == 4 and op["k"] != "journal":
        op["linker"] = {"mode": "hash", "calls": {str(rng.randrange(3)): rng.choice(("LinkerDown", "ValueError", "cancel"))}}
    else:
        if op["k"] == "string":
            op["src"] = None
        elif op["k"] == "journal":
            op["line"] = None
        else:
            for k in ("doc", "name"):
                op.pop(k, None)
            op["path"] = "doc/none.pdf"
    if kbs:
        op["kbs"] = kbs
    return op


# documents that cannot be extracted from: not a document, nothing before the marker, no text at all
BAD_DOCS = ({"t": "bin", "seed": 1}, {"t": "raw", "b64": ""}, {"t": "raw", "b64": "JVBERi0xLjQK"},
            {"t": "pdf", "seed": 3, "nrefs": 2, "mangle": "noeof"})


def in_slot(op, size=None):
    doc = dict(op["doc"], size=size) if size else op["doc"]
    op = dict(op, doc=doc)
    if op["k"] == "file":
        return dict(op, name="slot/paper.pdf", fresh=1)
    op["serve"] = [dict(s, seq=[dict(r, doc=doc) for r in s["seq"]]) for s in op["serve"]]
    url = "http://slot.example.org/paper.pdf"
    return dict(op, url=url, serve=[dict(op["serve"][0], url=url)])


class P(Prop):
    id = "C02"
    quick, thorough = 1600, 20000
    warmable = 0.4
    rule = ("a run = a seeded history of 2-7 steps in one process: calls over all KB types and forms, failing calls, in-place edits of "
            "override objects and of returned results, re-entrant linkers; every successful or failing call is compared with the same call "
            "in a fresh process; non-trivial = at least two calls in the history; distinct = distinct event logs")
    components = {"real": ["all refextract code", "pypdf", "libmagic", "pdftotext output (memoised)"],
                  "stub": ["pdftotext process delivery", "temporary names", "linker callback", "the calling application"]}
    assumptions = ("a KB given as a file path is assumed not to change on disk between calls (documented caching by path)",
                   "one-shot iterators are passed to one call only")
    lists = ()

    def generate(self, rng, ctx, i, cfg):
        pl = pool.pool(cfg["seed"], 110 if cfg["tier"] == "quick" else 400)
        steps = []
        base = pl.pick(rng)
        n = rng.choice((2, 2, 3, 3, 4, 5, 7))
        flavour = rng.random()
        echo = rng.random() < 0.35
        slot = rng.random() < 0.3
        docops = pl.docops if rng.random() < 0.5 else pl.fileops
        size = rng.choice((None, 24000))     # documents of one size under one name
        if slot:
            base = rng.choice(docops)
        elif echo and rng.random() < 0.5:
            # every entry point with the default KBs
            base = rng.choice(pl.defaults)
        swap = rng.random() < 0.25           # mappings that compare equal but have another order
        prev = None
        objs = {}
        if flavour < 0.35:
            # caller-owned KB objects that are edited in place between calls
            for j in range(rng.choice((1, 1, 2))):
                t = rng.choice(corpus.KB_TYPES) if rng.random() < 0.6 else "journals"
                f = rng.choice([x for x in corpus.FORMS[t] if x != "path"] + list(MORE.get(t, ("deque",))))
                name = "o%d" % j
                objs[name] = t
                steps.append({"newobj": name, "type": t, "form": f, "v": rng.randrange(corpus.NVAR)})
        calls = 0
        while calls < n:
            r = rng.random()
            if objs and r < 0.35 and calls:
                steps.append({"mut": rng.choice(sorted(objs)), "how": rng.choice(MUTS)})
                # and use it again
            elif r < 0.45 and calls:
                steps.append({"mutres": rng.randrange(8)})
            if rng.random() < 0.2:
                steps.append({"op": bad_op(rng, pl)})
                calls += 1
                continue
            op = rng.choice(docops) if slot and rng.random() < 0.6 else pl.pick(rng, like=base)
            if not calls and base in pl.defaults:
                op = base
            if slot and "doc" in op:
                # the document at this path or URL is another one than before
                op = in_slot(op, size)
                if rng.random() < 0.2:
                    op = in_slot(dict(op, doc=rng.choice(BAD_DOCS)))
            if swap and not slot:
                op = reorder(prev if prev and rng.random() < 0.7 else op, rng)
                prev = op
            st = {"op": op}
            if objs and op["k"] in ("string", "journal", "file") or (objs and op["k"].startswith("x_") and "journals" in objs.values()):
                use = {}
                for o, t in objs.items():
                    if rng.random() < 0.85 and (not op["k"].startswith("x_") or t == "journals"):
                        use[o] = t
                st["use"] = use
            if rng.random() < 0.12 and op["k"] in ("string", "file"):
                inner = pl.pick(rng, like=op)
                st["op"] = dict(op, linker={"mode": "reenter", "salt": 1, "at": sorted(rng.sample(range(8), 2)), "op": inner})
            steps.append(st)
            calls += 1
            if echo and (calls == 1 or rng.random() < 0.5) and not st.get("use"):
                # the caller edits what it got and makes the same call again
                steps.append({"mutres": -1})
                steps.append({"op": st["op"]})
                calls += 1
        if rng.random() < 0.1:
            pair = list(rng.choice(pl.alikes))
            rng.shuffle(pair)
            steps += [{"op": o} for o in pair]
        return {"threads": [steps], "stops": []}

    def execute(self, plan, ctx):
        h = pool.exec_threads(plan, ctx)
        h["nontrivial"] = sum(1 for s in plan["threads"][0] if "op" in s) >= 2
        pr = {}
        for st in plan["threads"][0]:
            for k in ("mut", "mutres", "newobj"):
                if k in st:
                    pr[k] = pr.get(k, 0) + 1
            if st.get("op", {}).get("linker", {}).get("mode") == "reenter":
                pr["reenter"] = pr.get("reenter", 0) + 1
        for o in h["outs"]:
            if "err" in o.get("out", {}):
                pr["failed_calls"] = pr.get("failed_calls", 0) + 1
        h["probes"] = pr
        return h

    def judge(self, plan, hist, ctx):
        return pool.judge_threads(plan, hist, ctx)

    def simplify(self, plan):
        yield from pool.simplify_threads(plan)
